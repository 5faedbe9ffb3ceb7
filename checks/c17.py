"""C17: the parallel map every stage is built on"""
from sim import core, pipes, runner
from sim.runner import require


class C17(runner.Check):
    ID = 'C17'
    RUNS = {'quick': 2500, 'thorough': 60000}
    RULE = ('random item count (0-14, with duplicates, equal objects and falsy items), worker count (1-9), per-item '
            'delays, 1-3 concurrent callers and a seeded schedule at line or opcode granularity; non-trivial: at '
            'least two workers were runnable at once')
    REAL = ['scrappybara.utils.multithreading', 'scrappybara.utils.mutables']
    STUB = ['thread scheduling, clock and sleep (simulator)', 'the mapped function (harness)']
    ASSUMPTIONS = ['preemption happens at line or bytecode boundaries of the package and at lock, thread and sleep calls']
    PROBES = ['delays', 'callers', 'bare']

    def plan(self, rng, tier):
        jobs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14])
            kind = rng.choice(['int', 'str', 'dup', 'falsy', 'list'])
            items = []
            for i in range(n):
                items.append({'int': i, 'str': 'w%d' % i, 'dup': rng.randrange(3), 'list': [i, [i]],
                              'falsy': rng.choice([0, '', None, False, [], i])}[kind])
            jobs.append({'items': items, 'bare': kind != 'int' and rng.random() < 0.4, 'threads': rng.randint(1, 9),
                         'delays': [rng.choice([0, 0, 0, 1, 5, 60]) for _ in range(n)] if rng.random() < 0.6 else []})
        if rng.random() < 0.02:
            jobs = [{'items': list(range(rng.choice([33, 64, 65, 100, 257, 1001]))), 'bare': False,
                     'threads': rng.choice([2, 7, 16, 33, 48, 70]), 'delays': []}]
        return {'jobs': jobs, 'sched': pipes.sched_plan(rng, 300), 'trace': rng.choice(['line', 'opcode'])}

    def execute(self, plan, out):
        from scrappybara.utils.multithreading import run_multithreads
        import threading
        results = {}

        def job(sim, k, spec):
            seen = []
            if spec['bare']:
                # The items as they are, falsy ones included; workers count what they get
                items = list(spec['items'])

                def note(item):
                    seen.append(repr(item))
                    sim.point()
                    return item

                got = run_multithreads(items, note, spec['threads'])
                results[k] = (got, seen, items == spec['items'] and list(map(repr, items)) == list(map(repr, spec['items'])))
                return
            items = [[i, x] for i, x in enumerate(spec['items'])]  # Identity of every item is known
            before = [list(x) for x in items]

            def process(item):
                seen.append(item[0])
                sim.point()
                if spec['delays'] and spec['delays'][item[0]]:
                    out.count('delays')
                    sim.sleep(spec['delays'][item[0]])
                return ('done', k, item[0], repr(item[1])) if item[1] is not None else None

            got = run_multithreads(items, process, spec['threads'])
            results[k] = (got, seen, [list(x) for x in items] == before)

        def body(sim):
            if len(plan['jobs']) == 1:
                job(sim, 0, plan['jobs'][0])
                return
            out.count('callers')
            ts = [threading.Thread(target=job, args=(sim, k, s)) for k, s in enumerate(plan['jobs'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        sim, _, err = pipes.simulate(body, out, plan['sched'], plan['trace'], max_steps=5000000)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'the call raised %r' % (err,))
        require(not sim.unhandled, 'raised', lambda: 'a task raised %r' % (sim.unhandled,))
        for k, spec in enumerate(plan['jobs']):
            require(k in results, 'lost-call', 'call %d did not come back' % k)
            got, seen, untouched = results[k]
            n = len(spec['items'])
            want = [('done', k, i, repr(x)) if x is not None else None for i, x in enumerate(spec['items'])]
            if spec['bare']:
                out.count('bare')
                want = spec['items']
            require(sorted(seen) == (sorted(map(repr, want)) if spec['bare'] else list(range(n))), 'not-exactly-once',
                    lambda: 'items processed: %r of %d items on %d workers' % (sorted(seen), n, spec['threads']))
            require(list(got) == want and (not spec['bare'] or repr(list(got)) == repr(want)), 'wrong-results',
                    lambda: '%d items on %d workers: expected %r, got %r' % (n, spec['threads'], want, got))
            require(untouched, 'input-changed', 'the caller\'s items were changed')
        require(not sim.live_at_end, 'worker-left', lambda: 'tasks %r still run after the call' % sim.live_at_end)
        out.note_digest(sorted((k, v[0], v[1]) for k, v in results.items()))
        out.nontrivial = len(sim.tasks) > 2

    def shrink(self, plan):
        for jobs in runner.drop_each(plan['jobs'], 1):
            yield dict(plan, jobs=jobs)
        for k, spec in enumerate(plan['jobs']):
            n = len(spec['items'])
            if n:
                for m in (n // 2, n - 1):
                    s = dict(spec, items=spec['items'][:m], delays=spec['delays'][:m])
                    yield dict(plan, jobs=plan['jobs'][:k] + [s] + plan['jobs'][k + 1:])
            if spec['delays']:
                yield dict(plan, jobs=plan['jobs'][:k] + [dict(spec, delays=[])] + plan['jobs'][k + 1:])
            if spec['threads'] > 1:
                s = dict(spec, threads=spec['threads'] - 1)
                yield dict(plan, jobs=plan['jobs'][:k] + [s] + plan['jobs'][k + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C17()
