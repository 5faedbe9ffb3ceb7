"""C16: a tree answers every query as its arcs define, however many readers walk it at once"""
import threading

from sim import pipes, runner
from sim.runner import require

LABELS = ['subj', 'obj', 'mod', 'conj']


class Model(object):
    """Reference: a list of arcs"""

    def __init__(self, root, arcs):
        self.root = root
        self.arcs = [tuple(a) for a in arcs]  # (label, parent, child)

    def parent(self, n):
        return next(((a[0], a[1]) for a in self.arcs if a[2] == n), None)

    def children(self, n):
        """Label by label, in the order in which they were added"""
        mine = [a for a in self.arcs if a[1] == n]
        return [(label, a[2]) for label in dict.fromkeys(a[0] for a in mine) for a in mine if a[0] == label]

    def via(self, n, label):
        return [a[2] for a in self.arcs if a[1] == n and a[0] == label]

    def up(self, n, label):
        p = self.parent(n)
        return self.up(p[1], label) + [p[1]] if p and p[0] == label else []

    def down(self, n, label):
        out = []
        for c in self.via(n, label):
            out += [c] + self.down(c, label)
        return out

    def siblings(self, n):
        p = self.parent(n)
        return [c for c in self.children(p[1]) if c[1] != n] if p else []

    def answer(self, op):
        k = op[0]
        n, label, labels = op[1] if len(op) > 1 else None, op[2] if len(op) > 2 else None, op[3] if len(op) > 3 else None
        if k in ('iter', 'paused'):
            return sorted(self.arcs)
        if k == 'nested':
            return sorted((a, b) for a in self.arcs for b in self.arcs)
        if k == 'pair':
            return sorted(self.arcs), sorted(self.arcs)
        if k == 'nodes':
            return sorted([self.root] + [a[2] for a in self.arcs]), len(self.arcs) + 1
        if k == 'has_node':
            return any(n in a[1:] for a in self.arcs)
        if k == 'parent':
            return self.parent(n)
        if k == 'parent_via':
            p = self.parent(n)
            return bool(p and p[0] == label), bool(p and p[0] in labels)
        if k == 'children':
            return self.children(n)
        if k == 'children_via':
            got = self.via(n, label)
            return got, got[0] if got else None
        if k == 'child_via':
            mine = {a[0] for a in self.arcs if a[1] == n}
            return label in mine, bool(mine & set(labels))
        if k == 'siblings':
            return self.siblings(n)
        if k == 'ancestors':
            return self.up(n, label)
        return self.down(n, label)


def coded(kind, n):
    """A node: equal for the same number, but never the same object twice"""
    return n if kind == 'int' else ''.join(['n', str(n)]) if kind == 'str' else ('node', 10000 + n)


def fresh(label):
    """An equal label, but never the same object twice"""
    return ''.join(list(label))


def decoded(x):
    if isinstance(x, list):
        return [decoded(y) for y in x]
    if isinstance(x, tuple):
        return x[1] - 10000 if x[:1] == ('node',) else tuple(decoded(y) for y in x)
    return int(x[1:]) if isinstance(x, str) and x[1:].isdigit() else x


def ask(tree, op, sim, kind):
    """The same query, put to the real tree"""
    got = decoded(_ask(tree, [op[0], coded(kind, op[1]), fresh(op[2]), [fresh(x) for x in op[3]]] if len(op) > 1 else op, sim))
    if op[0] in ('iter', 'paused', 'nested'):
        return sorted(got)
    if op[0] == 'pair':
        return sorted(got[0]), sorted(got[1])
    if op[0] == 'nodes':
        return sorted(got[0]), got[1]
    return got


def _ask(tree, op, sim):
    k = op[0]
    n, label, labels = op[1] if len(op) > 1 else None, op[2] if len(op) > 2 else None, op[3] if len(op) > 3 else None
    if k == 'iter':
        out = []
        for arc in tree:
            sim.point()
            out.append(tuple(arc))
        return out
    if k == 'paused':
        it = iter(tree)
        out = []
        for arc in it:
            out.append(tuple(arc))
            if len(out) == 2:
                break
        list(tree)
        len(tree)
        for arc in it:
            sim.point()
            out.append(tuple(arc))
        return out
    if k == 'nested':
        return [(tuple(a), tuple(b)) for a in tree for b in tree]
    if k == 'pair':
        pairs = [(tuple(a), tuple(b)) for a, b in zip(iter(tree), iter(tree))]
        return [a for a, _ in pairs], [b for _, b in pairs]
    if k == 'nodes':
        return own(tree.nodes), len(tree)
    if k == 'has_node':
        return bool(tree.has_node(n))
    if k == 'parent':
        p = tree.parent(n)
        return tuple(p) if p is not None else None
    if k == 'parent_via':
        return bool(tree.has_parent_via(n, label)), bool(tree.has_parent_via_set(n, set(labels)))
    if k == 'children':
        return [tuple(c) for c in own(tree.children(n))]
    if k == 'children_via':
        return list(tree.children_via(n, label)), tree.child_via(n, label)
    if k == 'child_via':
        return bool(tree.has_child_via(n, label)), bool(tree.has_child_via_set(n, set(labels)))
    if k == 'siblings':
        return [tuple(s) for s in own(tree.siblings(n))]
    if k == 'ancestors':
        return own(tree.ancestors_via(n, label))
    return own(tree.descendants_via(n, label))


def own(got):
    """A copy of an answer; the answer itself is the caller's, who may change it"""
    seen = list(got)
    if isinstance(got, list):
        got.reverse()
        got.append(('mod', 77))
    return seen


KINDS = ['iter', 'iter', 'paused', 'nested', 'pair', 'nodes', 'has_node', 'parent', 'parent_via', 'children',
         'children_via', 'child_via', 'siblings', 'ancestors', 'descendants']


class C16(runner.Check):
    ID = 'C16'
    RUNS = {'quick': 6000, 'thorough': 200000}
    RULE = ('a random tree (1-12 nodes, arcs registered in random order) is read by one to four threads that iterate '
            '(plainly, nested, paired, with a pause) and query it under a seeded schedule; every answer is compared with a '
            'list of arcs, and the tree must come out unchanged; non-trivial: two readers, or nested iteration')
    REAL = ['scrappybara.utils.tree', 'scrappybara.utils.mutables']
    STUB = ['thread scheduling (simulator)']
    ASSUMPTIONS = ['nobody adds arcs while the tree is being read',
                   'preemption happens at line or bytecode boundaries of the package']
    PROBES = ['op.' + k for k in dict.fromkeys(KINDS)] + ['readers', 'bare', 'grown']

    def plan(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 6, 9, 12]) if rng.random() > 0.01 else rng.choice([30, 80])
        nodes = list(range(n)) if rng.random() < 0.6 else rng.sample(range(max(40, 2 * n)), n)
        arcs = []
        labels = LABELS if rng.random() < 0.9 else LABELS[:3] + ['']
        for i in range(1, n):
            arcs.append([rng.choice(labels), nodes[rng.randrange(i) if rng.random() < 0.7 else i - 1], nodes[i]])
        root = nodes[0]
        rng.shuffle(arcs)

        def op():
            k = rng.choice(KINDS)
            return [k, rng.choice(nodes + [990]), rng.choice(labels), rng.sample(labels, rng.randint(0, 3))]

        readers = [[op() for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        # The tree may be read, grown and read again
        return {'root': root, 'nodes': rng.choice(['int', 'str', 'tuple']), 'arcs': arcs, 'readers': readers, 'early': rng.choice([0, 0, rng.randrange(n), n - 1]), 'sched': pipes.sched_plan(rng, 200),
                'trace': rng.choice(['line', 'opcode'])}

    def execute(self, plan, out):
        from scrappybara.utils.tree import Tree
        model = Model(plan['root'], plan['arcs'])
        early = Model(plan['root'], plan['arcs'][:plan['early']])
        answers = []
        kind = plan['nodes']
        if not plan['arcs']:
            out.count('bare')

        def body(sim):
            with sim.quiet():
                tree = Tree(coded(kind, plan['root']))
                for label, parent, child in plan['arcs'][:plan['early']]:
                    tree.register_child(fresh(label), coded(kind, parent), coded(kind, child))
            if 0 < plan['early'] < len(plan['arcs']):
                out.count('grown')
                for op in plan['readers'][0]:
                    answers.append((-2, 0, op, ask(tree, op, sim, kind)))
            with sim.quiet():
                for label, parent, child in plan['arcs'][plan['early']:]:
                    tree.register_child(fresh(label), coded(kind, parent), coded(kind, child))

            def read(k):
                for j, op in enumerate(plan['readers'][k]):
                    answers.append((k, j, op, ask(tree, op, sim, kind)))

            if len(plan['readers']) == 1:
                read(0)
            else:
                out.count('readers')
                ts = [threading.Thread(target=read, args=(k,)) for k in range(len(plan['readers']))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            for op in (['iter'], ['nodes']):
                answers.append((-1, 0, op, ask(tree, op, sim, kind)))
            answers.append((-1, 1, ['root'], decoded(tree.root)))

        sim, _, err = pipes.simulate(body, out, plan['sched'], plan['trace'], max_steps=20000000)
        pipes.check_quiescent(sim)
        require(err is None and not sim.unhandled, 'raised', lambda: 'a reader raised %r %r' % (err, sim.unhandled))
        out.note_digest(answers)
        for k, j, op, got in answers:
            want = model.root if op[0] == 'root' else (early if k == -2 else model).answer(op)
            out.count('op.' + op[0])
            require(got == want, 'wrong-answer', lambda: 'reader %d, query %r on %r: expected %r, got %r' % (
                k, op, plan['arcs'], want, got))
        total = len([a for a in answers if a[0] != -2])
        require(total == sum(len(r) for r in plan['readers']) + 3, 'lost-answer', 'a reader stopped early')
        out.nontrivial = len(plan['readers']) > 1 or any(op[0] in ('nested', 'pair', 'paused') for op in plan['readers'][0])

    def shrink(self, plan):
        for sub in runner.drop_each(plan['readers'], 1):
            yield dict(plan, readers=sub)
        for k, ops in enumerate(plan['readers']):
            for sub in runner.drop_each(ops, 1):
                yield dict(plan, readers=plan['readers'][:k] + [sub] + plan['readers'][k + 1:])
        parents = {a[1] for a in plan['arcs']}
        for k, a in enumerate(plan['arcs']):
            if a[2] not in parents:
                yield dict(plan, arcs=plan['arcs'][:k] + plan['arcs'][k + 1:])
        if plan['nodes'] != 'int':
            yield dict(plan, nodes='int')
        if plan['early']:
            yield dict(plan, early=0)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C16()
