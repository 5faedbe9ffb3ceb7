"""C15: the same input gives the same output in every process"""
import json
import os
import subprocess
import sys

from sim import goldgen, lmgen, pipes, runner, texts
from sim.runner import require


class C15(runner.Check):
    ID = 'C15'
    RUNS = {'quick': 300, 'thorough': 9000}
    RULE = ('batches of texts, corpora and labelled sentences are processed in two fresh interpreters that differ in the '
            'seed of string hashing, the memory layout (address order), the randomness of the operating system and the '
            'thread schedule; everything they return or '
            'write is compared; non-trivial: both came back with documents, files or rows')
    DISTINCT = 'nontrivial'
    REAL = pipes.PIPE_REAL + ['scrappybara.langmodel', 'scrappybara.syntax.labelled_data, training_samples',
                              'the interpreter, with PYTHONHASHSEED under control']
    STUB = pipes.PIPE_STUB
    ASSUMPTIONS = pipes.PIPE_ASSUME + ['seeding random and numpy.random fixes the shuffle of training rows']
    PROBES = ['documents', 'tokens', 'corpora', 'training', 'saved']

    def plan(self, rng, tier):
        plan = {'texts': [], 'tokens': [], 'corpora': [], 'gold': [], 'chunk': rng.random() < 0.7,
                'cfgs': [pipes.config_plan(rng), pipes.config_plan(rng)],
                'scheds': [pipes.sched_plan(rng), pipes.sched_plan(rng)],
                'seeds': [rng.randrange(1, 1 << 31), rng.randrange(1, 1 << 31)],
                'layouts': [rng.getrandbits(30), rng.getrandbits(30)], 'shuffle': rng.getrandbits(31)}
        r = rng.random()
        if r < 0.6:
            plan['texts'] = [[texts.text(rng) for _ in range(rng.randint(1, 8))] for _ in range(2)]
            plan['tokens'] = [texts.text(rng) for _ in range(12)]
        elif r < 0.85:
            for _ in range(3):
                order = rng.choice([1, 2, 3])
                plan['corpora'].append({'order': order, 'smoothing': rng.choice([
                    'modified_kneser_ney', 'maximum_likelihood_estimation']) if order > 1 else
                    'maximum_likelihood_estimation', 'texts': lmgen.corpus(rng, rng.choice([4, 12, 25])),
                    'procs': rng.randint(1, 3)})
        else:
            for _ in range(8):
                plan['gold'].append(rng.choice(goldgen.GOLD) if rng.random() < 0.4 else
                                    goldgen.sentence(rng, rng.choice([2, 4, 7, 15]), rng.random() < 0.2, False))
        return plan

    def _child(self, plan, k):
        job = {key: plan[key] for key in ('texts', 'tokens', 'corpora', 'gold', 'chunk', 'shuffle')}
        job.update(cfg=plan['cfgs'][k], sched=plan['scheds'][k], layout=plan['layouts'][k], root=runner.ROOT)
        env = dict(os.environ, PYTHONHASHSEED=str(plan['seeds'][k]))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, '-W', 'ignore', here + '/sim/hashchild.py'], input=json.dumps(job).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if p.returncode != 0 or not p.stdout:
            raise runner.HarnessError('child: %s' % p.stderr.decode(errors='replace')[-2000:])
        return json.loads(p.stdout)

    def execute(self, plan, out):
        a, b = self._child(plan, 0), self._child(plan, 1)
        for res in (a, b):
            require(res[0] == 'ok', 'raised', lambda: 'a process failed:\n%s' % res[1])
        for _, _, side in (a, b):
            out.steps += side['steps']
            out.sim_time += side['sim_time']
            out.trails.extend(side['trails'])
            for key, n in side['stats'].items():
                out.count(key, n)
        a, b = a[1], b[1]
        out.note_digest(json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True))
        if plan['texts']:
            out.count('documents')
            out.count('tokens')
        if plan['corpora']:
            out.count('corpora')
        if plan['gold']:
            out.count('training')
            out.count('saved')
        for key in sorted(set(a) | set(b)):
            require(a.get(key) == b.get(key), 'differs', lambda: '%s differ between two processes (hash seeds %r, layouts '
                    '%r): %s' % (key, plan['seeds'], plan['layouts'], self._diff(a.get(key), b.get(key))))
        for key in a:
            require(a[key][0] == 'ok' or key.startswith('build'), 'raised', lambda: '%s raised %s' % (key, a[key][1]))
        out.count('fault.hash_seed')
        out.count('fault.memory_layout')
        out.count('fault.entropy')
        out.nontrivial = True

    @staticmethod
    def _diff(a, b):
        x, y = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return '... %s ... against ... %s ...' % (x[max(0, k - 80):k + 120], y[max(0, k - 80):k + 120])

    def shrink(self, plan):
        for k in (0, 1):
            if plan['scheds'][k]['mode'] != 'seq':
                s = list(plan['scheds'])
                s[k] = {'mode': 'seq'}
                yield dict(plan, scheds=s)
        if plan['cfgs'][0] != plan['cfgs'][1]:
            yield dict(plan, cfgs=[plan['cfgs'][0]] * 2)
        if plan['layouts'][0] != plan['layouts'][1]:
            yield dict(plan, layouts=[plan['layouts'][0]] * 2)
        if plan['seeds'][0] != plan['seeds'][1]:
            yield dict(plan, seeds=[plan['seeds'][0]] * 2)
        for key in ('texts', 'tokens', 'corpora', 'gold'):
            for sub in runner.drop_each(plan[key], 0):
                yield dict(plan, **{key: sub})
        for i, batch in enumerate(plan['texts']):
            for sub in runner.drop_each(batch, 1):
                yield dict(plan, texts=plan['texts'][:i] + [sub] + plan['texts'][i + 1:])
        for i, c in enumerate(plan['corpora']):
            for sub in runner.drop_each(c['texts'], 1):
                yield dict(plan, corpora=plan['corpora'][:i] + [dict(c, texts=sub)] + plan['corpora'][i + 1:])


CHECK = C15()
