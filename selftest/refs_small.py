"""Rewritings that keep the behaviour: version, heap, itertools (run with tools/refactor.py)."""
V = 'big/version.py'
REFS = [
 dict(id='version-helper', file=V, props='V01 V02 V03', edits=[
  ("class Version:\n", '''def _int_or_none(value):
    return None if value is None else int(value)


def _strip_trailing_zeros(release):
    end = len(release)
    while end > 1 and release[end - 1] == 0:
        end -= 1
    return tuple(release[:end])


class Version:
'''),
  ("            release = [int(_) for _ in get('release').split('.')]\n", "            release = _strip_trailing_zeros(list(map(int, get('release').split('.'))))\n"),
  ("            while (len(release) > 1) and (not release[-1]):\n                release.pop()\n            release = tuple(release)\n", ""),
  ("            while (len(release) > 1) and (not release[-1]):\n                release = release[:-1]\n", "            release = _strip_trailing_zeros(release)\n"),
  ("            epoch = int(epoch) if epoch is not None else None\n", "            epoch = _int_or_none(epoch)\n"),
  ("            serial = int(serial) if serial is not None else None\n", "            serial = _int_or_none(serial)\n"),
  ("            post = int(post) if post is not None else None\n", "            post = _int_or_none(post)\n"),
  ("            dev = int(dev) if dev is not None else None\n", "            dev = _int_or_none(dev)\n"),
 ]),
 dict(id='version-str-join', file=V, props='V01 V02 V03', edits=[
  ('''        text = []
        append = text.append

        if self._epoch:
            append(f"{self._epoch}!")
        append(self._str_release)

        release_level = _release_level_to_str.get(self._release_level)
        if not release_level:
            assert not self._serial
        else:
            append(release_level)
            if self._serial:
                append(str(self._serial))

        if self._post is not None:
            append(f".post{self._post}")

        if self._dev is not None:
            append(f".dev{self._dev}")

        if self._local:
            append("+")
            append(".".join(self._local))

        return "".join(text)
''', '''        epoch = '%d!' % self._epoch if self._epoch else ''
        level = _release_level_to_str[self._release_level]
        serial = str(self._serial) if level and self._serial else ''
        post = '' if self._post is None else '.post{}'.format(self._post)
        dev = '' if self._dev is None else '.dev%s' % (self._dev,)
        local = f"+{'.'.join(self._local)}" if self._local else ''
        return epoch + self._str_release + level + serial + post + dev + local
'''),
 ]),
 dict(id='version-cmp-nested', file=V, props='V01 V02 V03', edits=[
  ('''        if epoch is None:
            epoch = 0
        release_level = _release_level_to_integer[release_level]
        if serial is None:
            serial = 0
        if dev is None:
            dev = math.inf
        if post is None:
            post = -1
        self._tuple = (epoch, release, release_level, serial, post, dev, compare_local)
''', '''        self._tuple = (
            epoch or 0,
            release,
            _release_level_to_integer[release_level],
            serial or 0,
            (0,) if post is None else (1, post),
            (1,) if dev is None else (0, dev),
            compare_local,
            )
'''),
  ('''        return self._tuple < other._tuple
''', '''        for mine, theirs in zip(self._tuple, other._tuple):
            if mine != theirs:
                return mine < theirs
        return False
'''),
 ]),
 dict(id='version-minor-slice', file=V, props='V01 V02 V03', edits=[
  ('''        if len(self._release) <= 1:
            return 0
        return self._release[1]
''', '''        _, *rest = self._release
        return rest[0] if rest else 0
'''),
  ('''        if len(self._release) <= 2:
            return 0
        return self._release[2]
''', '''        try:
            return self._release[2]
        except IndexError:
            return 0
'''),
  ('''            local = tuple(element.lower() for element in local)
            compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
''', '''            local = tuple(map(str.lower, local))
            compare = []
            for element in local:
                if element.isdecimal():
                    compare.append((2, int(element)))
                else:
                    compare.append((1, element))
            compare_local = tuple(compare)
'''),
  ('''            if (
                   (epoch != None)
                or (release != None)
                or (release_level != None)
                or (serial != None)
                or (post != None)
                or (dev != None)
                or (local != None)
                ):
''', '''            if any(value is not None for value in (epoch, release, release_level, serial, post, dev, local)):
'''),
 ]),
 dict(id='heap-slice-indices', file='big/heap.py', props='H01 H02 H03', edits=[
  ('''            if item.step in (None, 1):
                length = len(self._queue)
                start = item.start or 0
                stop = item.stop if item.stop is not None else length
                if start < 0:
                    start += length
                if stop < 0:
                    stop += length
                if start == 0:
                    return nsmallest(stop, self._queue)
                if stop == length:
                    # nlargest returns the largest... IN REVERSE ORDER.  *smh*
                    result = nlargest(length - start, self._queue)
                    result.reverse()
                    return result
            # fall through! it'll work!
''', '''            start, stop, step = item.indices(len(self._queue))
            if step == 1:
                if start == 0:
                    return nsmallest(stop, self._queue)
                if stop == len(self._queue):
                    return nlargest(stop - start, self._queue)[::-1]
            # fall through! it'll work!
'''),
 ]),
 dict(id='heap-own-sift', file='big/heap.py', props='H01 H02 H03', edits=[
  ('''        self._queue.remove(o)
        heapify(self._queue)
        self._version += 1
''', '''        queue = self._queue
        index = queue.index(o)
        last = queue.pop()
        if index < len(queue):
            queue[index] = last
            heapify(queue)
        self._version += 1
'''),
  ('''        self._queue.extend(i)
        heapify(self._queue)
        self._version += 1
''', '''        new = list(i)
        if len(new) * 4 < len(self._queue):
            for o in new:
                heappush(self._queue, o)
        else:
            self._queue += new
            heapify(self._queue)
        self._version += 1
'''),
  ('''        queue = list(self._queue)
        queue.sort()
        return queue
''', '''        return sorted(self._queue)
'''),
  ('''            if not self._copy:
                raise StopIteration
            return heappop(self._copy)
''', '''            try:
                return heappop(self._copy)
            except IndexError:
                raise StopIteration from None
'''),
 ]),
 dict(id='heap-big-small', file='big/heap.py', props='H01 H02 H03', edits=[
  ('''        elif item == 0:
            return self._queue[0]
        elif 0 < item < 10:
            l = nsmallest(item + 1, self._queue)
            return l[item]
        elif -10 < item < 0:
            l = nlargest(-item, self._queue)
            return l[-item - 1]
        l = sorted(self._queue)
''', '''        l = self.queue
'''),
  ('''        o = heappushpop(self._queue, o)
        self._version += 1
        return o
''', '''        self._version += 1
        if self._queue and self._queue[0] < o:
            o, self._queue[0] = self._queue[0], o
            import heapq
            heapq._siftup(self._queue, 0)
        return o
'''),
 ]),
 dict(id='heap-iter-generator', file='big/heap.py', props='H01 H03', edits=[
  ('''            self._copy = heap._queue.copy()
''', '''            self._copy = list(reversed(sorted(heap._queue)))
'''),
  ('''            return heappop(self._copy)
''', '''            return self._copy.pop()
'''),
 ]),
 dict(id='pushback-helper', file='big/itertools.py', props='I01', edits=[
  ('''    def __next__(self):
        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        raise StopIteration
''', '''    _sentinel = object()

    def __next__(self):
        o = self.next(self._sentinel)
        if o is self._sentinel:
            raise StopIteration
        return o
'''),
  ('''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default
''', '''        try:
            return self.stack.pop()
        except IndexError:
            pass
        if self.i is None:
            return default
        o = next(self.i, self._sentinel)
        if o is self._sentinel:
            self.i = None
            return default
        return o
'''),
  ('''        if self.stack:
            return True
        if self.i is not None:
            try:
                o = next(self.i)
                self.push(o)
                return True
            except StopIteration:
                self.i = None
        return False
''', '''        if not self.stack:
            o = self.next(self._sentinel)
            if o is self._sentinel:
                return False
            self.stack.append(o)
        return True
'''),
 ]),
]
