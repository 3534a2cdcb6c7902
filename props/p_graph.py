from sx.registry import harness


def node(ctx, name):
    """an arbitrary node (nodes are only ever compared for equality)"""
    return ctx.str(name, 1, [('a', 'z'), ('A', 'Z')])


class Model:
    """reference graph: list of nodes, list of (node, dependency) pairs"""
    def __init__(self):
        self.nodes = []
        self.edges = []

    def add(self, node, *deps):
        for n in (node,) + deps:
            if not (n in self.nodes):
                self.nodes.append(n)
        for d in deps:
            if not has_edge(self.edges, node, d):
                self.edges.append((node, d))

    def remove(self, node):
        self.nodes = [n for n in self.nodes if not (n == node)]
        self.edges = [(a, b) for a, b in self.edges if not (a == node or b == node)]

    def copy(self):
        m = Model()
        m.nodes = list(self.nodes)
        m.edges = list(self.edges)
        return m

    def deps(self, node):
        return [b for a, b in self.edges if a == node]

    def cyclic(self):
        left = list(self.nodes)
        while True:
            free = [n for n in left if not any(d in left for d in self.deps(n))]
            if not free:
                return bool(left)
            left = [n for n in left if not (n in free)]


def has_edge(edges, a, b):
    for x, y in edges:
        if x == a and y == b:
            return True
    return False


class VModel:
    """reference view state"""
    def __init__(self, graph):
        self.graph = graph
        self.yielded = []
        self.done = []

    def copy(self, graph):
        v = VModel(graph)
        v.yielded = list(self.yielded)
        v.done = list(self.done)
        return v

    def reset(self):
        self.yielded = []
        self.done = []

    def remove(self, node):
        self.yielded = [n for n in self.yielded if not (n == node)]
        self.done = [n for n in self.done if not (n == node)]

    def incoherent(self):
        for z, y in self.graph.edges:
            if not (y in self.done) and (z in self.yielded or z in self.done):
                return True
        return False

    def ready(self):
        out = []
        for n in self.graph.nodes:
            if n in self.yielded or n in self.done:
                continue
            if all(d in self.done for d in self.graph.deps(n)):
                out.append(n)
        return out

    def active(self):
        return len(self.done) < len(self.graph.nodes)


def same_set(ctx, got, want, label):
    ctx.check(len(got) == len(want), label)
    for g in got:
        ctx.check(any(g == w for w in want), label)
    for i, g in enumerate(got):
        for h in got[i + 1:]:
            ctx.check(not (g == h), label)


def check_cycle(ctx, g, m):
    from big.graph import CycleError
    cyc = g.cycle()
    bad = m.cyclic()
    if not bad:
        ctx.check(cyc is None, 'cycle() is None exactly when the graph has no cycle')
        g.prepare()
        g.check_for_cycles()
        return False
    ctx.check(cyc is not None and len(cyc) >= 1, 'cycle() reports a cycle when there is one')
    for i, n in enumerate(cyc):
        nxt = cyc[(i + 1) % len(cyc)]
        ctx.check(has_edge(m.edges, nxt, n), 'consecutive nodes of the reported cycle depend on each other')
        for k in cyc[i + 1:]:
            ctx.check(not (n == k), 'the reported cycle is simple')
    try:
        g.prepare()
        ctx.fail('prepare raises CycleError on a cyclic graph')
    except CycleError as e:
        pass
    try:
        g.check_for_cycles()
        ctx.fail('check_for_cycles raises CycleError on a cyclic graph')
    except CycleError as e:
        pass
    ctx.reach('cyclic')
    return True


def _static(tier):
    ks = [dict(k=k, iso=i, via=v) for k in range(0, 4) for i in (0, 1) for v in ('add', 'init')]
    ks.append(dict(k=4, iso=0, via='add'))
    if tier == 'thorough':
        ks += [dict(k=4, iso=0, via='init'), dict(k=4, iso=1, via='add'), dict(k=5, iso=0, via='add')]
    return ks


@harness('G01', cases=_static, bounds='graphs of up to 4 (thorough 5) arbitrary dependencies between arbitrary nodes (any pattern of equal nodes, self-loops and duplicates included) '
         'plus an isolated node; nodes marked done in every order and grouping')
def static(ctx, k, iso, via):
    from big.graph import TopologicalSorter, CycleError
    m = Model()
    if via == 'init':
        d = {}
        for i in range(k):
            a, b = node(ctx, f'a{i}'), node(ctx, f'b{i}')
            d.setdefault(a, []).append(b)
        if iso:
            d.setdefault(node(ctx, 'iso'), [])
        for n, deps in d.items():
            m.add(n, *deps)
        g = TopologicalSorter(d)
    else:
        g = TopologicalSorter()
        for i in range(k):
            a, b = node(ctx, f'a{i}'), node(ctx, f'b{i}')
            g.add(a, b)
            m.add(a, b)
        if iso:
            a = node(ctx, 'iso')
            g.add(a)
            m.add(a)
    ctx.check(len(g) == len(m.nodes), 'len is the number of nodes')
    if check_cycle(ctx, g, m):
        for f in (lambda: list(g.static_order()), g.ready):
            try:
                f()
                ctx.fail('a cyclic graph cannot be iterated')
            except CycleError:
                pass
        return
    order = list(g.static_order())
    same_set(ctx, order, m.nodes, 'static_order yields every node exactly once')
    for i, n in enumerate(order):
        for d in m.deps(n):
            ctx.check(any(d == x for x in order[:i]), 'static_order yields dependencies first')
    same_set(ctx, list(g.static_order()), m.nodes, 'static_order can be repeated')
    # the ready/done protocol in any order of completion
    v = VModel(m)
    while True:
        ctx.check(bool(g) == v.active() and g.is_active() == v.active(), 'active until every node is done')
        r = g.get_ready()
        same_set(ctx, r, v.ready(), 'ready() gives exactly the nodes whose dependencies are all done')
        v.yielded.extend(r)
        if not v.yielded:
            break
        n = ctx.choice('done', v.yielded)
        g.done(n)
        v.yielded.remove(n)
        v.done.append(n)
    ctx.check(len(v.done) == len(m.nodes), 'every node is eventually ready')
    g.reset()
    v.reset()
    same_set(ctx, g.ready(), v.ready(), 'reset starts over')
    ctx.observe('order', len(order))


def refuses(ctx, view, node, label):
    try:
        view.done(node)
        ctx.fail(label)
    except ValueError:
        pass


@harness('G01', cases=lambda tier: [dict(k=k, which=w) for k in range(1, 4 if tier == 'quick' else 5) for w in ('default', 'view')],
         bounds='acyclic graphs of up to 3 (thorough 4) arbitrary dependencies; a view is reset after any number of ready and done calls in any order, and after the reset only nodes yielded '
         'again can be marked done; then it is run to completion')
def reset_midway(ctx, k, which):
    from big.graph import TopologicalSorter
    m = Model()
    g = TopologicalSorter()
    for i in range(k):
        a, b = node(ctx, f'a{i}'), node(ctx, f'b{i}')
        g.add(a, b)
        m.add(a, b)
    if m.cyclic():
        return
    view = g if which == 'default' else g.view()
    v = VModel(m)
    stop = ctx.choice('stop', range(2 * k + 1))
    for i in range(stop):
        if i % 2 == 0:
            v.yielded.extend(view.ready())
        elif not v.yielded:
            return
        else:
            n = ctx.choice('done', v.yielded)
            view.done(n)
            refuses(ctx, view, n, 'a node cannot be done twice')
            v.yielded.remove(n)
            v.done.append(n)
    view.reset()
    v.reset()
    refuses(ctx, view, ctx.choice('early', m.nodes), 'after a reset no node is yielded yet')
    while v.active():
        ctx.check(bool(view), 'active until every node is done')
        r = view.ready()
        same_set(ctx, r, v.ready(), 'ready() gives exactly the nodes whose dependencies are all done')
        v.yielded.extend(r)
        left = [x for x in m.nodes if not (x in v.yielded)]
        if left:
            refuses(ctx, view, left[-1], 'only yielded nodes can be done')
        n = v.yielded.pop()
        view.done(n)
        v.done.append(n)
    ctx.check(not view, 'inactive when every node is done')
    ctx.check(len(view.ready()) == 0, 'and nothing is ready')
    ctx.reach('complete')


@harness('G01', cases=lambda tier: [dict(seed=sd, ops=ops) for sd in (('edge', 'fork', 'chain', 'loop', 'triangle') if tier == 'quick' else SEEDS) for ops in
                                    [['add', 'add', 'remove'], ['add', 'remove', 'add'], ['add', 'remove'], ['remove', 'add'], ['lone', 'remove'], ['lone', 'check', 'remove'], ['check', 'remove', 'add'], ['check', 'add', 'remove'],
                                     ['add', 'check', 'remove'], ['remove', 'remove'], ['add', 'copy', 'remove'], ['check', 'copy', 'add'], ['copy', 'lone', 'remove'], ['remove', 'copy', 'add']]
                                    + ([['add', 'remove', 'add', 'remove'], ['add', 'add', 'check', 'remove'], ['add', 'add', 'copy', 'remove']] if tier != 'quick' else [])],
         bounds='five (thorough six) starting graphs, cyclic and not, then 2 to 3 (thorough 4) additions, removals and copies of arbitrary nodes, with or without looking for cycles in between; then cycle() and static_order() are judged')
def changed(ctx, seed, ops):
    from big.graph import TopologicalSorter, CycleError
    m = Model()
    g = TopologicalSorter()
    for a, b in SEEDS[seed]:
        g.add(a, b)
        m.add(a, b)
    for i, op in enumerate(ops):
        if op == 'add':
            x, y = node(ctx, f'x{i}'), node(ctx, f'y{i}')
            g.add(x, y)
            m.add(x, y)
        elif op == 'lone':
            x = node(ctx, f'x{i}')
            g.add(x)
            m.add(x)
        elif op == 'remove':
            x = ctx.choice(f'r{i}', m.nodes) if m.nodes else None
            if x is None:
                return
            g.remove(x)
            m.remove(x)
        elif op == 'check':
            check_cycle(ctx, g, m)
        elif op == 'copy':
            g = g.copy()
    if check_cycle(ctx, g, m):
        try:
            list(g.static_order())
            ctx.fail('a cyclic graph has no static order')
        except CycleError:
            pass
        return
    order = list(g.static_order())
    same_set(ctx, order, m.nodes, 'static_order yields every node exactly once')
    for i, n in enumerate(order):
        for d in m.deps(n):
            ctx.check(any(d == x for x in order[:i]), 'static_order yields dependencies first')


GOPS = ['add1', 'add2', 'remove', 'ready', 'done', 'done2', 'reset', 'copyview', 'copygraph']


class Pair:
    """a graph, two of its views and their reference models"""
    def __init__(self, ctx, seeds, active):
        from big.graph import TopologicalSorter
        self.ctx = ctx
        self.g = TopologicalSorter()
        self.m = Model()
        self.n = 0
        for a, b in seeds:
            x, y = a, b
            self.g.add(x, y)
            self.m.add(x, y)
        self.views = [(self.g, VModel(self.m)), (self.g.view(), VModel(self.m))]
        self.active = active

    def node(self, name):
        # an arbitrary node: one of the known ones or a new one
        x = node(self.ctx, name)
        return x

    def op(self, op):
        from big.graph import CycleError
        ctx, g, m = self.ctx, self.g, self.m
        view, vm = self.views[self.active]
        if op in ('add1', 'add2', 'add3'):
            x = self.node('x')
            deps = [self.node('y')] if op != 'add1' else []
            if op == 'add3':
                deps.append(self.node('z'))
            g.add(x, *deps)
            m.add(x, *deps)
            self.last = deps[0] if deps else x
        elif op in ('remove', 'unadd'):
            # unadd: the node that was last added as a dependency
            x = self.node('x') if op == 'remove' else self.last
            inside = x in m.nodes
            try:
                g.remove(x)
                ctx.check(inside, 'removing an unknown node raises ValueError')
                m.remove(x)
                for _, v in self.views:
                    v.remove(x)
            except ValueError:
                ctx.check(not inside, 'removing a node works')
        elif op == 'ready':
            try:
                r = view.ready()
            except RuntimeError:
                ctx.check(vm.incoherent(), 'RuntimeError only from an incoherent view')
                ctx.reach('incoherent')
                return
            except CycleError:
                ctx.check(m.cyclic(), 'CycleError only when there is a cycle')
                return
            ctx.check(not vm.incoherent(), 'an incoherent view raises RuntimeError')
            ctx.check(not m.cyclic(), 'ready() on a cyclic graph raises CycleError')
            same_set(ctx, r, vm.ready(), 'ready() gives exactly the nodes whose dependencies are all done')
            vm.yielded.extend(r)
        elif op in ('done', 'done2'):
            xs = [self.node('d')]
            if op == 'done2':
                xs.append(self.node('e'))
            ok = all(x in vm.yielded for x in xs)
            try:
                view.done(*xs)
            except RuntimeError:
                ctx.check(vm.incoherent(), 'RuntimeError only from an incoherent view')
                return
            except ValueError:
                ctx.check(not ok, 'yielded nodes can be marked done')
                return
            ctx.check(not vm.incoherent(), 'an incoherent view raises RuntimeError')
            ctx.check(ok, 'only yielded nodes can be marked done')
            for x in xs:
                if x in vm.yielded:
                    vm.yielded = [n for n in vm.yielded if not (n == x)]
                    vm.done.append(x)
        elif op == 'reset':
            view.reset()
            vm.reset()
        elif op == 'copyview':
            k = self.active or 1
            self.views.append((self.views[k][0].copy(), self.views[k][1].copy(m)))
            self.active = len(self.views) - 1
        elif op == 'finish':
            if m.cyclic() or vm.incoherent():
                return
            while vm.active():
                vm.yielded.extend(view.ready())
                view.done(*vm.yielded)
                vm.done.extend(vm.yielded)
                vm.yielded = []
        elif op == 'switch':
            self.active = (self.active + 1) % len(self.views)
        elif op == 'close':
            # the default view cannot be closed: take the oldest other one
            i = self.active or 1
            view = self.views[i][0]
            del self.views[i]
            self.active = len(self.views) - 1
            view.close()
            for f in (view.ready, view.done, view.reset, view.close, view.__bool__):
                try:
                    f()
                    ctx.fail('a closed view cannot be used')
                except ValueError:
                    pass
        elif op == 'copygraph':
            # go on with the copy; the original keeps its own state
            self.old = (g, m, [(v, w) for v, w in self.views])
            g2, m2 = g.copy(), m.copy()
            self.g, self.m = g2, m2
            self.views = [(g2, self.views[0][1].copy(m2)), (g2.view(), VModel(m2))]
            self.active = 0

    old = None

    def verify(self):
        self.verify_one(self.g, self.m, self.views)
        if self.old is not None:
            self.verify_one(*self.old)

    def verify_one(self, g, m, views):
        ctx = self.ctx
        from big.graph import CycleError
        ctx.check(len(g) == len(m.nodes), 'len')
        cyc = check_cycle(ctx, g, m)
        for view, vm in views:
            try:
                act = bool(view)
            except RuntimeError:
                ctx.check(vm.incoherent(), 'RuntimeError only from an incoherent view')
                ctx.reach('incoherent')
                continue
            ctx.check(not vm.incoherent(), 'an incoherent view raises RuntimeError')
            ctx.check(act == vm.active(), 'active until every node is done')
            if cyc:
                continue
            for k in range(len(m.nodes) + 2):
                r = view.ready()
                same_set(ctx, r, vm.ready(), 'ready() gives exactly the nodes whose dependencies are all done')
                vm.yielded.extend(r)
                if not vm.yielded:
                    break
                todo = vm.yielded
                view.done(*todo)
                vm.done.extend(todo)
                vm.yielded = []
            ctx.check(not bool(view), 'every node is eventually done')
        if not cyc:
            same_set(ctx, list(g.static_order()), m.nodes, 'static_order yields every node exactly once')


SEEDS = {'loop': [('a', 'b'), ('b', 'a'), ('a', 'c')], 'triangle': [('a', 'b'), ('b', 'c'), ('c', 'a'), ('d', 'c')], 'empty': [], 'edge': [('a', 'b')], 'fork': [('a', 'b'), ('a', 'c')], 'chain': [('a', 'b'), ('b', 'c')]}

DSEEDS = ['empty', 'edge', 'fork', 'chain']


def _dyn(tier):
    out = []
    for seed in DSEEDS:
        for a in ('ready', 'add1', 'add2', 'remove'):
            for b in GOPS:
                for c in GOPS:
                    out.append(dict(seed=seed, ops=[a, b, c], more=0))
    for seed in ('edge', 'fork', 'chain'):
        for c in GOPS:
            for d in GOPS:
                out.append(dict(seed=seed, ops=['ready', 'done', c, d], more=0))
    if tier == 'thorough':
        for seed in DSEEDS:
            for a in GOPS:
                for b in GOPS:
                    for c in GOPS:
                        for d in GOPS:
                            if a == 'ready' or a.startswith('add'):
                                out.append(dict(seed=seed, ops=[a, b, c, d], more=0))
    return out


@harness('G02', cases=_dyn, bounds='a starting graph of up to 2 dependencies, then every history of 3-4 (thorough 4) operations out of adding, removing, ready, done (one or two nodes), '
         'reset, copying the view and copying the graph; every node argument arbitrary; then both views are run to completion')
def dynamic(ctx, seed, ops, more):
    p = Pair(ctx, SEEDS[seed], 1 if 'copyview' in ops else 0)
    for op in ops:
        p.op(op)
    p.verify()
    ctx.observe('nodes', len(p.m.nodes))


def _histories(tier):
    out = []
    for seed in ('edge', 'fork', 'chain'):
        # a view closed before, between or after changes of the graph
        for a in ('ready', 'add2', 'remove', 'copyview'):
            for b in ('add1', 'add2', 'remove', 'ready', 'reset'):
                out.append((seed, [a, 'copyview', 'close', b]))
                out.append((seed, [a, 'close', b]))
        # copies of an incoherent view, and what may make them coherent again
        for c in ('remove', 'reset', 'add2', 'done', 'ready'):
            out.append((seed, ['ready', 'add2', 'copyview', c]))
            out.append((seed, ['ready', 'add2', 'copyview', 'switch', c]))
            out.append((seed, ['ready', 'add2', 'copyview', 'close', c]))
        for c in ('done', 'reset', 'add2', 'ready') if tier != 'quick' else ('reset',):
            out.append((seed, ['ready', 'add2', 'copyview', c, 'remove']))
        # reset while incoherent, then incoherent again
        out.append((seed, ['ready', 'add2', 'reset', 'remove', 'ready']))
        out.append((seed, ['ready', 'add2', 'reset', 'ready', 'remove']))
        out.append((seed, ['ready', 'done', 'ready', 'done', 'add2', 'remove']))
        out.append((seed, ['ready', 'done', 'ready', 'add1', 'ready', 'remove']))
        for c in ('add1', 'add2', 'remove', 'reset', 'ready'):
            out.append((seed, ['finish', c, 'ready']))
            out.append((seed, ['finish', 'close', c]))
            out.append((seed, ['add2', 'finish', 'copyview', 'close', c]))
            out.append((seed, ['finish', 'remove', c, 'ready']))
        out.append((seed, ['add3', 'ready', 'done', 'remove']))
        out.append((seed, ['ready', 'add3', 'remove']))
        # a node with several dependents, some of them yielded or done, is removed
        out.append((seed, ['ready', 'add2', 'add2', 'unadd']))
        if seed == 'edge' or tier != 'quick':
            out.append((seed, ['ready', 'add2', 'unadd', 'done', 'add2', 'unadd']))
            out.append((seed, ['ready', 'add2', 'add2', 'unadd', 'ready']))
    return [dict(seed=s, ops=o, start=1 if any(x in o for x in ('copyview', 'close')) else a) for s, o in out for a in ((0, 1) if tier != 'quick' else (0,))]


@harness('G02', cases=_histories, bounds='histories of 3 to 6 operations in fixed orders, every node argument arbitrary: views closed between changes, copies of incoherent views, views reset while incoherent, nodes with two new '
         'dependencies; the views left are then run to completion, a closed one refuses everything')
def histories(ctx, seed, ops, start):
    p = Pair(ctx, SEEDS[seed], start)
    for op in ops:
        p.op(op)
    p.verify()
    ctx.observe('nodes', len(p.m.nodes))
