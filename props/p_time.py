"""Time stamps (big/time.py).  The calendar and strftime are CPython and libc code: they are replaced by a model that keeps the symbolic
seconds (one directive of strftime gives a letter and these seconds), so what is decided is which instant, zone and precision are shown."""
import calendar
import datetime as realdt
import glob
import os
import shutil
import struct
import sys
import tempfile
import time
import types

from sx.registry import harness

try:
    import dateutil.parser
except ImportError:
    # another environment of this machine has it (used when replaying only); without it, a stand-in makes big.time define parse_timestamp_3339Z
    for place in sorted(glob.glob(f'/opt/venv/lib/python3.{sys.version_info[1]}/site-packages')):
        sys.path.append(place)
        try:
            import dateutil.parser
            break
        except ImportError:
            pass
        finally:
            sys.path.remove(place)
    else:
        sys.modules['dateutil'] = types.ModuleType('dateutil')
        sys.modules['dateutil.parser'] = sys.modules['dateutil'].parser = types.ModuleType('dateutil.parser')
        sys.modules['dateutil.parser'].parse = lambda s: None
PARSER = sys.modules['dateutil.parser']
REAL = hasattr(PARSER, '__file__')

M = 10 ** 6
LO, HI = -29 * 10 ** 9, 220 * 10 ** 9


def local_at(us):
    """the local zone's offset at an instant"""
    return WORLD['local'] if us < WORLD['switch'] * M else WORLD['later']


def local_instant(wall):
    """the instant of a local time (more than 15 hours from the change, so there is exactly one)"""
    return wall - (WORLD['local'] if wall < WORLD['switch'] * M else WORLD['later']) * M


def zone_file(path, switch, before, after):
    """a time zone file (RFC 8536) with one change"""
    def block(n):
        return (struct.pack('>4s1s15x6l', b'TZif', b'2', 0, 0, 0, n, 2, 4) + (struct.pack('>q', switch) + bytes([1]) if n else b'')
                + struct.pack('>lBB', before, 0, 0) + struct.pack('>lBB', after, 0, 0) + b'LOC\0')
    with open(path, 'wb') as f:
        f.write(block(0) + block(1) + b'\n\n')


class Zone:
    """datetime.timezone"""
    def __init__(self, offset):
        self.offset = offset

    def __eq__(self, o):
        return isinstance(o, Zone) and self.offset == o.offset

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 1

    def __bool__(self):
        return True

    def utcoffset(self, d):
        return Delta(self.offset)


class Delta:
    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return bool(self.s != 0)

    def total_seconds(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, Delta) and self.s == o.s

    def __hash__(self):
        return 1


Zone.utc = Zone(0)
WORLD = {}


def token(n):
    """a text for the number n: the same for equal numbers, another one for others (the solver decides which)"""
    seen = WORLD['tokens']
    for k, v in enumerate(seen):
        if v == n:
            return f'<{k}>'
    seen.append(n)
    return f'<{len(seen) - 1}>'


class Part:
    """the year, month, day, hour, minute or second of a moment"""
    def __init__(self, kind, secs):
        self.kind = kind
        self.secs = secs


FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'fold']


class Moment:
    """datetime.datetime: wall clock microseconds and zone"""
    fold = 0

    def __init__(self, *args, wall=None, tzinfo=None, fold=0, microsecond=0, **parts):
        if args:
            parts.update(zip(FIELDS, args))
            microsecond = parts.pop('microsecond', microsecond)
            tzinfo = args[7] if len(args) > 7 else tzinfo
        if wall is None:
            # from its own parts only
            wall = parts['year'].secs * M + microsecond
            for k in FIELDS[:6]:
                if parts[k].kind != k or parts[k].secs != wall // M:
                    raise ValueError('parts of different moments')
        self.wall = wall
        self.tzinfo = tzinfo
        self.known = None       # the instant, for a local time made from one (the fold of a datetime)

    def __getattr__(self, k):
        if k in FIELDS[:6]:
            return Part(k, self.wall // M)
        raise AttributeError(k)

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp_us(WORLD['now'], tz)

    @classmethod
    def utcnow(cls):
        return Moment(wall=WORLD['now'])

    @classmethod
    def fromtimestamp_us(cls, us, tz):
        m = Moment(wall=us + (local_at(us) if tz is None else tz.offset) * M, tzinfo=tz)
        if tz is None:
            m.known = us
        return m

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if isinstance(t, float):
            us = t.num * (M // t.d)
        else:
            us = t * M
        return cls.fromtimestamp_us(us, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return Moment(wall=cls.fromtimestamp(t, Zone.utc).wall)

    def instant(self):
        if self.tzinfo is None:
            return local_instant(self.wall) if self.known is None else self.known
        return self.wall - self.tzinfo.offset * M

    def astimezone(self, tz=None):
        us = self.instant()
        return Moment.fromtimestamp_us(us, Zone(local_at(us)) if tz is None else tz)

    def replace(self, **kw):
        w = self.wall
        if 'microsecond' in kw:
            w = w - w % M + kw.pop('microsecond')
        tz = kw.pop('tzinfo', self.tzinfo)
        assert not kw
        m = Moment(wall=w, tzinfo=tz)
        if self.known is not None and tz is None:
            m.known = self.known + (w - self.wall)
        return m

    def timestamp(self):
        return self.instant() // M if self.instant() % M == 0 else None

    def utcoffset(self):
        return None if self.tzinfo is None else Delta(self.tzinfo.offset)

    @property
    def microsecond(self):
        return self.wall % M

    def strftime(self, f):
        s = token(self.wall // M)
        out = ''
        i = 0
        while i < len(f):
            if f[i] != '%':
                out = out + f[i]
                i += 1
                continue
            d = f[i + 1]
            i += 2
            if d == '%':
                out = out + '%'
            elif d == 'f':
                out = out + f'{self.wall % M:06d}'
            elif d == 'F':
                out = out + self.strftime('%Y-%m-%d')
            elif d == 'T':
                out = out + self.strftime('%H:%M:%S')
            else:
                out = out + d + s
        return out

    def isoformat(self, sep='T', timespec='auto'):
        micro = timespec == 'microseconds' or (timespec == 'auto' and self.wall % M != 0)
        r = self.strftime('%Y-%m-%d' + sep + '%H:%M:%S' + ('.%f' if micro else ''))
        if self.tzinfo is not None:
            r = r + ('+00:00' if self.tzinfo.offset == 0 else '+??:??')
        return r

    def __format__(self, spec):
        return self.strftime(spec)


class Struct:
    """time.struct_time"""
    def __init__(self, wall, zone, off):
        self.wall = wall
        self.tm_zone = zone
        self.tm_gmtoff = off
        self.tm_isdst = 0


class FakeTime:
    struct_time = Struct

    @staticmethod
    def mktime(t):
        return local_instant(t.wall * M) // M

    @staticmethod
    def time():
        return WORLD['now'] // M

    @staticmethod
    def gmtime(s):
        return Struct(s, 'GMT', 0)

    @staticmethod
    def localtime(s):
        off = local_at(s * M)
        return Struct(s + off, 'LOC', off)


class FakeCalendar:
    @staticmethod
    def timegm(t):
        return t.wall


class World:
    """the zone of this process and the current time; models in place of datetime, time and calendar unless replaying"""
    NAMES = ('datetime', 'timezone', 'time', 'calendar')

    def __init__(self, ctx, X):
        self.ctx = ctx
        self.X = X
        self.local = ctx.int('local', -56, 56) * 900
        # the local zone has another offset from some instant on
        self.later = ctx.int('later', -56, 56) * 900
        self.switch = ctx.int('switch', LO, HI)
        self.now = ctx.int('now', LO, HI) * M + ctx.int('now_us', 0, M - 1)

    def __enter__(self):
        X = self.X
        self.saved = {k: getattr(X, k) for k in self.NAMES if hasattr(X, k)}
        if self.ctx.symbolic:
            WORLD['local'], WORLD['now'], WORLD['tokens'] = self.local, self.now, []
            WORLD['later'], WORLD['switch'] = self.later, self.switch
            X.datetime, X.timezone, X.time, X.calendar = Moment, Zone, FakeTime, FakeCalendar
        else:
            self.tz = os.environ.get('TZ')
            self.dir = tempfile.mkdtemp()
            zone_file(os.path.join(self.dir, 'LOC'), self.switch, self.local, self.later)
            os.environ['TZ'] = ':' + os.path.join(self.dir, 'LOC')
            time.tzset()
            now = self.now

            class Fixed(realdt.datetime):
                @classmethod
                def now(cls, tz=None):
                    utc = realdt.datetime(1970, 1, 1, tzinfo=realdt.timezone.utc) + realdt.timedelta(microseconds=now)
                    return utc.astimezone(tz) if tz is not None else utc.astimezone(None).replace(tzinfo=None)
            X.datetime = Fixed
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.X, k, v)
        if not self.ctx.symbolic:
            if self.tz is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = self.tz
            time.tzset()
            shutil.rmtree(self.dir)

    def at(self, us):
        return self.local if us < self.switch * M else self.later

    def of(self, wall):
        """the offset of a local time, away from the change"""
        if wall < (self.switch - 54000) * M:
            return self.local
        self.ctx.assume(wall > (self.switch + 54000) * M)
        return self.later

    # inputs
    def moment(self, wall, off):
        if self.ctx.symbolic:
            return Moment(wall=wall, tzinfo=None if off is None else Zone(off))
        d = realdt.datetime(1970, 1, 1) + realdt.timedelta(microseconds=wall)
        return self.X.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tzinfo=None if off is None else realdt.timezone(realdt.timedelta(seconds=off)))

    def struct(self, wall, zone, off):
        if self.ctx.symbolic:
            return Struct(wall, zone, off)
        g = time.gmtime(wall)
        return time.struct_time(tuple(g)[:8] + (0,), {'tm_zone': zone, 'tm_gmtoff': off})

    # output
    def text(self, wall, date, sep, micro, end):
        """the wall clock (microseconds) as year, month, day, separated by date, then the time"""
        s = wall // M
        frac = f'.{wall % M:06d}' if micro else ''
        if self.ctx.symbolic:
            s = token(s)
            return 'Y' + s + date + 'm' + s + date + 'd' + s + sep + 'H' + s + ':M' + s + ':S' + s + frac + end
        return time.strftime(f'%Y{date}%m{date}%d{sep}%H:%M:%S', time.gmtime(s)) + frac + end


KINDS = ['none', 'int', 'float', 'naive', 'utc', 'aware', 'gmtime', 'localtime', 'plain struct', 'struct with offset', 'struct named UTC']


@harness('D01', cases=lambda tier: [dict(fn=f, kind=k, want=w) for f in ('human', '3339') for k in KINDS for w in (None, True, False)],
         bounds='every given zone and every local zone that changes its offset once at any instant (whole quarters of an hour up to 14 hours from UTC; local times more than 15 hours from the change), every instant from the year 1052 to 8941 (whole and half seconds for floats, microseconds for datetimes), every kind of argument')
def stamp(ctx, fn, kind, want):
    import big.time as X
    w = World(ctx, X)
    secs = ctx.int('secs', LO, HI)
    with w:
        if kind == 'none':
            t, instant = None, w.now
        elif kind == 'int':
            t, instant = secs, secs * M
        elif kind == 'float':
            half = ctx.int('half', 0, 1)
            instant = secs * M + half * (M // 2)
            if ctx.symbolic:
                from sx.symval import SymFloat
                t = SymFloat(secs + secs + half, 2)
            else:
                t = (secs + secs + half) / 2
        elif kind in ('naive', 'utc', 'aware'):
            us = ctx.int('us', 0, M - 1)
            off = {'naive': None, 'utc': 0}.get(kind, 7)
            if kind == 'aware':
                off = ctx.int('off', -56, 56) * 900
            wall = secs * M + us
            t, instant = w.moment(wall, off), wall - (w.of(wall) if off is None else off) * M
        else:
            if kind in ('localtime', 'plain struct'):
                off = w.of(secs * M)
            else:
                off = ctx.int('off', -56, 56) * 900 if kind == 'struct with offset' else 0
            zone = {'gmtime': 'GMT', 'localtime': 'LOC', 'struct named UTC': 'UTC'}.get(kind)
            t, instant = w.struct(secs, zone, None if kind in ('plain struct', 'struct named UTC') else off), (secs - off) * M
        micro = want
        if want is None:
            micro = kind in ('none', 'float', 'naive', 'utc', 'aware')
            if fn == '3339' and ctx.known('D01-KF1', kind == 'float'):
                micro = False
        kw = {} if want is None else {'want_microseconds': want}
        f = X.timestamp_human if fn == 'human' else X.timestamp_3339Z
        r = f(**kw) if t is None else f(t, **kw)
        if fn == 'human':
            expect = w.text(instant + w.at(instant) * M, '/', ' ', micro, '')
        else:
            expect = w.text(instant, '-', 'T', micro, 'Z')
        ctx.check(r == expect, 'the instant that was given, in the right zone, with microseconds exactly when wanted', lambda: (r, expect))
    ctx.reach('stamp')


class Record:
    """datetime.datetime as a record of its fields"""
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond = year, month, day, hour, minute, second, microsecond
        self.tzinfo, self.fold = tzinfo, fold

    def replace(self, **kw):
        a = {k: getattr(self, k) for k in FIELDS}
        a['tzinfo'] = self.tzinfo
        a.update(kw)
        return Record(**a)

    def date(self):
        return Record(self.year, self.month, self.day)

    def timetz(self):
        return self

    def time(self):
        return self

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return Record(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo if tzinfo is True else tzinfo, fold=t.fold)


@harness('D01', cases=lambda tier: [dict(had=h) for h in (False, True)], bounds='every datetime (all fields symbolic, with and without a zone), a zone or None')
def zone(ctx, had):
    import big.time as X
    f = dict(year=ctx.int('year', 1, 9999), month=ctx.int('month', 1, 12), day=ctx.int('day', 1, 28), hour=ctx.int('hour', 0, 23), minute=ctx.int('minute', 0, 59),
             second=ctx.int('second', 0, 59), microsecond=ctx.int('microsecond', 0, M - 1), fold=ctx.int('fold', 0, 1))
    old = realdt.timezone(realdt.timedelta(hours=3)) if had else None
    new = ctx.choice('new', [realdt.timezone.utc, realdt.timezone(realdt.timedelta(hours=-5)), None])
    saved = X.datetime
    if ctx.symbolic:
        X.datetime = Record
    try:
        d = X.datetime(tzinfo=old, **f)
        r = X.datetime_set_timezone(d, new)
        e = X.datetime_ensure_timezone(d, new)
    finally:
        X.datetime = saved
    for k in FIELDS:
        ctx.check(getattr(r, k) == f[k] and getattr(e, k) == f[k] and getattr(d, k) == f[k], 'only the zone changes', lambda: k)
    ctx.check(r.tzinfo is new, 'datetime_set_timezone sets the zone')
    ctx.check(e.tzinfo is (old if had else new), 'datetime_ensure_timezone sets the zone only if there is none')
    ctx.check(d.tzinfo is old, 'the argument is unchanged')
    ctx.reach('zone')


class Reader:
    """dateutil.parser: reads what strftime writes (a model in which the seconds are a token)"""
    def __init__(self, zoned):
        self.zoned = zoned

    def parse(self, s, *a, **k):
        assert not a and not k
        i = s.index('<')
        j = s.index('>') + 1
        n = int(s[i + 1:j - 1])
        mark = s[i:j]
        form = 'Y' + mark + '-m' + mark + '-d' + mark + 'TH' + mark + ':M' + mark + ':S' + mark
        assert s[:len(form)] == form
        s = s[len(form):]
        us = 0
        if s[:1] == '.':
            us = int(s[1:7])
            s = s[7:]
        wall = WORLD['tokens'][n] * M + us
        assert s == ('Z' if self.zoned else '')
        return Moment(wall=wall, tzinfo=Zone.utc if self.zoned else None)


@harness('D01', cases=lambda tier: [dict(want=w, zoned=z, given=g) for w in (True, False) for z in (1, 0) for g in (0, 1)],
         bounds='a time stamp made by timestamp_3339Z for any datetime (as above), with or without the final Z, read back with or without a zone given',
         assumes=['dateutil.parser.parse reads a time stamp as the moment it shows, in UTC if it ends in Z and else without a zone (a model; the real one when replaying)'])
def parse(ctx, want, zoned, given):
    import big.time as X
    w = World(ctx, X)
    secs, us = ctx.int('secs', LO, HI), ctx.int('us', 0, M - 1)
    off = ctx.int('off', -56, 56) * 900
    with w:
        if not ctx.symbolic and not REAL:
            ctx.check(True, 'cannot be replayed without dateutil')
            return
        real = PARSER.parse
        names = [k for k, v in vars(X).items() if v is real]
        if ctx.symbolic:
            PARSER.parse = Reader(zoned).parse
            for k in names:
                setattr(X, k, PARSER.parse)
        try:
            instant = (secs - off) * M + us
            s = X.timestamp_3339Z(w.moment(secs * M + us, off), want_microseconds=want)
            ctx.check(s[-1:] == 'Z', 'the stamp is in UTC')
            zone = None
            if given:
                zone = Zone(3600) if ctx.symbolic else realdt.timezone(realdt.timedelta(hours=1))
            r = X.parse_timestamp_3339Z(s if zoned else s[:-1], timezone=zone) if given else X.parse_timestamp_3339Z(s if zoned else s[:-1])
        finally:
            PARSER.parse = real
            for k in names:
                setattr(X, k, real)
        if not want:
            instant = instant - us
        if ctx.symbolic:
            got = r.wall
        else:
            got = (r.replace(tzinfo=None) - realdt.datetime(1970, 1, 1)) // realdt.timedelta(microseconds=1)
        ctx.check(got == instant, 'reading a time stamp gives back what it shows', lambda: (got, instant))
        if zoned:
            ctx.check(r.tzinfo is not None and r.utcoffset().total_seconds() == 0, 'in UTC, as it says')
        else:
            ctx.check(r.tzinfo is zone, 'in the zone given, as it says none')
    ctx.reach('parse')
