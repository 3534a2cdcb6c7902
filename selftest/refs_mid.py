"""Rewritings that keep the behaviour: graph, state, scheduler, log, time (run with tools/refactor.py)."""
G, S, C, L, T = 'big/graph.py', 'big/state.py', 'big/scheduler.py', 'big/log.py', 'big/time.py'
REFS = [
 dict(id='graph-ready-dict', file=G, props='G01 G02', edits=[
  ("            self._ready = []\n", "            self._ready = {}\n"),
  ("            self._ready.extend(self.graph._stock_view._ready)\n", "            self._ready.update(self.graph._stock_view._ready)\n"),
  ("                self._ready.append(node)\n\n        def _add_successor", "                self._ready[node] = True\n\n        def _add_successor"),
  ('''                    try:
                        # why "try" here?
                        # successor might be yielded or done.
                        # (in which case we must be conflicted.)
                        self._ready.remove(successor)
                    except ValueError:
                        pass
''', '''                    self._ready.pop(successor, None)
'''),
  ('''            if node in self._ready:
                self._ready.remove(node)
''', '''            self._ready.pop(node, None)
'''),
  ('''                    self._ready.append(successor)
            # print(f"_mark''', '''                    self._ready[successor] = True
            # print(f"_mark'''),
  ('''            ready = list(self._ready)
            self._ready.clear()
            return tuple(ready)
''', '''            ready, self._ready = tuple(self._ready), {}
            return ready
'''),
 ]),
 dict(id='graph-cycle-colour', file=G, props='G01 G02', edits=[
  ('''        counts = {node: value[0] for node, value in self.nodes.items()}
        done = set()
        _ready = {node for node, count in counts.items() if not count}
        while _ready:
            done |= _ready
            _ready2 = set()
            for node in _ready:
                successors = self.nodes[node][1]
                for successor in successors:
                    counts[successor] -= 1
                    if not counts[successor]:
                        _ready2.add(successor)
            _ready = _ready2

        if len(done) == len(counts):
''', '''        import collections
        counts = dict((node, value[0]) for node, value in self.nodes.items())
        done = set()
        queue = collections.deque(node for node in counts if counts[node] == 0)
        while queue:
            node = queue.popleft()
            done.add(node)
            for successor in self.nodes[node][1]:
                counts[successor] -= 1
                if counts[successor] == 0:
                    queue.append(successor)

        if not (counts.keys() - done):
'''),
  ('''        iterators = [iter(nodes)]
        seen = set()
        cycle = []

        while iterators:
            top = iterators[-1]
            try:
                node = next(top)
                # it's impossible for 'node' to be marked done.
                # we started with the list of nodes that weren't
                # marked 'done' yet, and the only thing we ever
                # add to 'iterators' are successor nodes.
                assert node not in done
                if node in seen:
                    # found a cycle
                    index = cycle.index(node)
                    self.dirty = True
                    return tuple(cycle[index:])
                # descend
                seen.add(node)
                cycle.append(node)
                iterators.append(iter(self.nodes[node][1]))
            except StopIteration:
                # ascend
                node = cycle.pop()
                seen.remove(node)
                iterators.pop()
''', '''        # every node left has a predecessor that is left too: walking
        # backwards, we must come round to a node we have seen.
        predecessors = {}
        for node in nodes:
            for successor in self.nodes[node][1]:
                predecessors.setdefault(successor, node)
        node = next(iter(nodes))
        path = {}
        while node not in path:
            path[node] = len(path)
            node = predecessors[node]
        self.dirty = True
        cycle = list(path)[path[node]:]
        return tuple(reversed(cycle))
'''),
 ]),
 dict(id='graph-remove-comp', file=G, props='G01 G02', edits=[
  ('''        predecessors = []
        predecessor_count, successors = self.nodes[node]
        if predecessor_count:
            # we have to iterate over all nodes in the graph
            # until we find all predecessors.
            for n, pc_s in self.nodes.items():
                pc, s = pc_s
                if node in s:
                    predecessor_count -= 1
                    predecessors.append(n)
                    # early exit! on average, O(N * 0.5) ;-)
                    # phew!
                    if not predecessor_count:
                        break

        # print(f"    {predecessors=}")
        # print(f"    {successors=}")

        for n in predecessors:
            _, s = self.nodes[n]
            del s[node]

        for n in successors:
            p_s = self.nodes[n]
            p_s[0] -= 1

        del self.nodes[node]
''', '''        for n in [n for n, (pc, s) in self.nodes.items() if node in s]:
            self.nodes[n][1].pop(node)
        _, successors = self.nodes.pop(node)
        for n in successors:
            if n in self.nodes:
                self.nodes[n][0] -= 1
'''),
  ('''            conflict_1 = not (node in self._done)      # "node" is not C, so it's A or B
            conflict_2a = (successor in self._yielded) # "successor" is 2
            conflict_2b = (successor in self._done)    # "successor" is 3
            confict_2 = conflict_2a or conflict_2b     # "successor" is 2 or 3
            conflicted = conflict_1 and confict_2      # "node" is not C and "successor" is 2 or 3
            if conflicted:
                self._conflicts[node].add(successor)
                self._reverse_conflicts[successor].add(node)

            if not ((node in self._done) or (successor in self._done)):
''', '''            if node in self._done:
                return
            if successor in self._yielded | self._done:
                self._conflicts[node].add(successor)
                self._reverse_conflicts[successor].add(node)

            if successor not in self._done:
'''),
  ('''            nodes = dict.fromkeys(nodes)
            for node in nodes:
                if node not in self.graph.nodes:
                    raise ValueError(f"node {node!r} was not added using add()")
                if node not in self._yielded:
                    raise ValueError(f"node {node!r} was not passed out")
''', '''            nodes = list(dict.fromkeys(nodes))
            unknown = [node for node in nodes if node not in self._yielded]
            if unknown:
                first = unknown[0]
                reason = "was not passed out" if first in self.graph.nodes else "was not added using add()"
                raise ValueError(f"node {first!r} {reason}")
'''),
 ]),
 dict(id='graph-check-open', file=G, props='G01 G02', edits=[
  ('''        def __bool__(self):
            """
            Returns `True` if more work can be done in the
            view--if there are nodes waiting to be yielded by
            `get_ready`, or waiting to be returned by `done`.
            """
            if self.graph is None:
                raise ValueError("TopologicalSorter view has already been closed")
            if self._conflicts:
                self._raise_conflicts()
            return len(self._done) < len(self.graph.nodes)
''', '''        def _check_usable(self):
            if self.graph is None:
                raise ValueError("TopologicalSorter view has already been closed")
            if self._conflicts:
                self._raise_conflicts()

        def __bool__(self):
            """
            Returns `True` if more work can be done in the
            view--if there are nodes waiting to be yielded by
            `get_ready`, or waiting to be returned by `done`.
            """
            self._check_usable()
            return any(node not in self._done for node in self.graph.nodes)
'''),
  ('''            if self.graph is None:
                raise ValueError("TopologicalSorter view has already been closed")
            if self._conflicts:
                self._raise_conflicts()
            if self.graph.dirty:
                self.graph.check_for_cycles()
''', '''            self._check_usable()
            self.graph.check_for_cycles()
'''),
  ('''            if self.graph is None:
                raise ValueError("TopologicalSorter view has already been closed")
            if self._conflicts:
                self._raise_conflicts()
            nodes = dict.fromkeys(nodes)
''', '''            self._check_usable()
            nodes = dict.fromkeys(nodes)
'''),
  ('''        while v:
            ready = v.ready()
            yield from ready
            v.done(*ready)
''', '''        while True:
            if not v:
                return
            ready = v.ready()
            for node in ready:
                yield node
            v.done(*ready)
'''),
  ('''            predecessors_count, successors = pc_s

''' if False else '''        predecessors_count, successors = pc_s

        for d in dependencies:
''', '''        predecessors_count = pc_s[0]

        for d in dependencies:
'''),
 ]),
 dict(id='graph-deepcopy', file=G, props='G01 G02', edits=[
  ('''                for n, v in original._conflicts.items():
                    self._conflicts[n] = v.copy()
                for n, v in original._reverse_conflicts.items():
                    self._reverse_conflicts[n] = v.copy()
                return
''', '''                self._conflicts.update((n, set(v)) for n, v in original._conflicts.items())
                self._reverse_conflicts.update({n: set(v) for n, v in original._reverse_conflicts.items()})
                return
'''),
  ('''                for this, other in (
                    (self._conflicts, self._reverse_conflicts),
                    (self._reverse_conflicts, self._conflicts)
                    ):
                    values = this.get(node, ())
                    if values:
                        del this[node]
                        for v in values:
                            other[v].discard(node)
                            if not other[v]:
                                del other[v]
''', '''                def forget(this, other):
                    for v in this.pop(node, ()):
                        other[v].discard(node)
                        if not other[v]:
                            del other[v]
                forget(self._conflicts, self._reverse_conflicts)
                forget(self._reverse_conflicts, self._conflicts)
'''),
  ('''        clone = self.__class__()
        for node, p_s in self.nodes.items():
            p, s = p_s
            clone.nodes[node] = [p, s.copy()]
''', '''        clone = type(self)()
        clone.nodes.update({node: [p, dict(s)] for node, (p, s) in self.nodes.items()})
'''),
 ]),
 dict(id='state-callback', file=S, props='T01 T02', edits=[
  ('''        if self.on_exit:
            on_exit = getattr(self.__state, self.on_exit, None)
            if on_exit is not None:
                on_exit()
''', '''        self._notify(self.on_exit)
'''),
  ('''        if self.on_enter:
            on_enter = getattr(self.__state, self.on_enter, None)
            if on_enter is not None:
                on_enter()
''', '''        self._notify(self.on_enter)

    def _notify(self, name):
        if not name:
            return
        try:
            method = getattr(self.__state, name)
        except AttributeError:
            return
        if method is not None:
            method()
'''),
  ('''        for o in tuple(self.observers):
            o(self)
''', '''        observers = self.observers[:]
        while observers:
            observers.pop(0)(self)
'''),
 ]),
 dict(id='state-walrus', file=S, props='T01 T02', edits=[
  ('''            on_exit = getattr(self.__state, self.on_exit, None)
            if on_exit is not None:
                on_exit()
''', '''            if (on_exit := getattr(self.__state, self.on_exit, None)) is not None:
                on_exit()
'''),
  ('''        self.__state = state
        self.__next = None
''', '''        self.__state, self.__next = self.__next, None
'''),
  ('''            i = getattr(self, state_manager)
            return getattr(i, 'state')
''', '''            return getattr(self, state_manager).state
'''),
  ('''            i = getattr(self, state_manager)
            setattr(i, 'state', value)
''', '''            getattr(self, state_manager).state = value
'''),
  ('''            i = getattr(self, state_manager)
            method = getattr(i.state, f'{prefix}{fn.__name__}{suffix}')
            return method(*args, **kwargs)
''', '''            from operator import attrgetter
            return attrgetter('state.' + prefix + fn.__name__ + suffix)(getattr(self, state_manager))(*args, **kwargs)
'''),
 ]),
 dict(id='sched-lt-tuple', file=C, props='S01 S02', edits=[
  ('''        if self.time < other.time:
            return True
        if self.time > other.time:
            return False

        if self.priority < other.priority:
            return True
        if self.priority > other.priority:
            return False

        if self.sequence < other.sequence:
            return True

        return False
''', '''        return (self.time, self.priority, self.sequence) < (other.time, other.priority, other.sequence)
'''),
  ('''            if not absolute:
                time += self.regulator.now()
            self.event_id_counter += 1
            event = Event(self, o, time, priority, self.event_id_counter)
''', '''            due = time if absolute else self.regulator.now() + time
            self.event_id_counter = sequence = self.event_id_counter + 1
            event = Event(self, o, due, priority, sequence)
'''),
 ]),
 dict(id='sched-acquire', file=C, props='S01 S02', edits=[
  ('''        while True:

            with self.regulator.lock:
                if not self.heap:
                    raise StopIteration

                now = self.regulator.now()
                ev = self.heap[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event

''', '''        while True:

            with self.regulator.lock:
                if not self.heap:
                    raise StopIteration

                ev = self.heap[0]
                time_to_next_event = ev.time - self.regulator.now()

                if not (time_to_next_event > 0):
                    return self.heap.popleft().event

'''),
 ]),
 dict(id='log-calc', file=L, props='P01', edits=[
  ('''        i = iter(tuple(self.events))
        waiting = next(i)
        for e in i:
            t, event, depth = waiting
            next_t = e[0]
            yield (t, next_t - t, event, depth)
            waiting = e
        t, event, depth = waiting
        yield (t, 0, event, depth)
''', '''        events = list(self.events)
        following = [e[0] for e in events[1:]] + [events[-1][0]]
        for (t, event, depth), next_t in zip(events, following):
            yield t, next_t - t, event, depth
'''),
  ('''            seconds = t // 1_000_000_000
            nanoseconds = f"{t - seconds * 1_000_000_000:>09}"
            nanoseconds = nanoseconds[:fractional_width]
            return f"{seconds:0{seconds_width}}.{nanoseconds}"
''', '''            seconds, nanoseconds = divmod(t, 10 ** 9)
            fraction = str(nanoseconds).zfill(9)[:fractional_width]
            return str(seconds).rjust(seconds_width, '0') + '.' + fraction
'''),
  ('''        self.longest_event = max(self.longest_event, len(event))
''', '''        if len(event) > self.longest_event:
            self.longest_event = len(event)
'''),
 ]),
 dict(id='log-fstring', file=L, props='P01', edits=[
  ('''            seconds = t // 1_000_000_000
            nanoseconds = f"{t - seconds * 1_000_000_000:>09}"
            nanoseconds = nanoseconds[:fractional_width]
            return f"{seconds:0{seconds_width}}.{nanoseconds}"
''', '''            return "%0*d.%s" % (seconds_width, t // 1_000_000_000, ("%09d" % (t % 1_000_000_000))[:fractional_width])
'''),
  ('''            indent2 = indent * depth
            print(f"{indent}{format_time(start)}  {format_time(elapsed)}  {indent2}{event}")
''', '''            columns = [format_time(start), format_time(elapsed), indent * depth + event]
            print(indent + "  ".join(columns))
'''),
  ('''        self(subsystem + " start")
''', '''        self("{} start".format(subsystem))
'''),
  ('''        subsystem = self.stack.pop()
        self(subsystem + " end")
''', '''        *self.stack, subsystem = self.stack
        self(f"{subsystem} end")
''' if False else '''        subsystem = self.stack.pop()
        self(f"{subsystem} end")
'''),
 ]),
 dict(id='time-dispatch', file=T, props='D01', edits=[
  ('''    if t is None:
        t = datetime.now()
    elif isinstance(t, (int, float)):
        if want_microseconds == None:
            want_microseconds = isinstance(t, float)
        t = datetime.fromtimestamp(t)
    elif isinstance(t, datetime):
        if t.tzinfo != None:
            t = t.astimezone(None)
    else:
        raise TypeError(f"unrecognized type {type(t)}")

    if want_microseconds == None:
        # if it's still None, t must be a type that supports microseconds
        want_microseconds = True

    s = t.strftime(_timestamp_human_format)
    if want_microseconds:
        s = f"{s}.{t.microsecond:06d}"
    return s
''', '''    if want_microseconds is None:
        want_microseconds = not (isinstance(t, int))

    if t is None:
        t = datetime.now()
    elif isinstance(t, datetime):
        t = t if t.tzinfo is None else t.astimezone()
    elif isinstance(t, (int, float)):
        t = datetime.fromtimestamp(t)
    else:
        raise TypeError(f"unrecognized type {type(t)}")

    format = _timestamp_human_format + ('.%f' if want_microseconds else '')
    return t.strftime(format)
'''),
  ('''    if want_microseconds == None:
        # if want_microseconds is *still* None,
        # t must be a type that supports microseconds
        want_microseconds = True

    if want_microseconds:
        f = _timestamp_3339Z_microseconds_format
    else:
        f = _timestamp_3339Z_format

    return t.strftime(f)
''', '''    timespec = 'seconds' if (want_microseconds is not None and not want_microseconds) else 'microseconds'
    return t.replace(tzinfo=None).isoformat(timespec=timespec) + 'Z'
'''),
  ('''    return datetime(
        year = d.year,
        month = d.month,
        day = d.day,
        hour = d.hour,
        minute = d.minute,
        second = d.second,
        microsecond = d.microsecond,
        tzinfo = timezone,
        fold = d.fold,
        )
''', '''    return d.replace(tzinfo=timezone)
'''),
 ]),
]
