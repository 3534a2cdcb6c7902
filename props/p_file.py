"""Files (big/file.py): searching lines, current directory, creating and removing, file names."""
import builtins
import io
import os
import pathlib
import re
import shutil
import signal
import stat
import tempfile

from sx.registry import harness


# ------------------------------------------------------------------ fgrep and grep

class TextFile:
    """a file opened for reading, whole contents given (text or bytes)"""
    def __init__(self, data):
        self.data = data
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def read(self):
        r, self.data = self.data, self.data[:0]
        return r

    def readlines(self):
        return list(self)

    def readline(self):
        r = list(self)
        if not r:
            return self.data
        self.data = self.data[len(r[0]):]
        return r[0]

    def __iter__(self):
        nl = b'\n' if isinstance(self.data, bytes) else '\n'
        parts = self.data.split(nl)
        return iter([p + nl for p in parts[:-1]] + ([parts[-1]] if len(parts[-1]) else []))


class Disk:
    """one file, symbolic contents: every way of opening it gets a model of the file (real file when replaying)"""
    def __init__(self, ctx, X, raw, encoding):
        self.ctx = ctx
        self.X = X
        self.raw = raw
        self.encoding = encoding
        self.real = not ctx.symbolic

    def opener(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if not isinstance(path, int) and not os.fsdecode(path).startswith('/sxfs/'):
            return self.saved[0](path, mode, buffering, encoding, errors, newline, *a, **k)
        if 'b' in mode:
            if encoding is not None:
                raise ValueError('binary mode takes no encoding')
            if not isinstance(self.raw, bytes):
                return TextFile(self.raw.encode(self.encoding))
            return TextFile(self.raw)
        if isinstance(self.raw, bytes):
            return TextFile(self.raw.decode('ascii'))
        text = self.raw
        if newline is None:
            text = text.replace('\r\n', '\n').replace('\r', '\n')
        wanted = (encoding or 'utf-8').lower().replace('_', '-')
        if wanted not in (self.encoding, 'locale'):
            text = '�' + text
        return TextFile(text)

    def __enter__(self):
        if self.real:
            self.dir = tempfile.mkdtemp(prefix='sxfile')
            self.path = os.path.join(self.dir, 'f')
            data = self.raw if isinstance(self.raw, bytes) else self.raw.encode(self.encoding, 'surrogatepass')
            with open(self.path, 'wb') as f:
                f.write(data)
            return self
        self.path = '/sxfs/f'
        self.saved = (builtins.open, io.open)
        builtins.open = io.open = self.X.open = self.opener
        return self

    def __exit__(self, *a):
        if self.real:
            shutil.rmtree(self.dir)
            return
        builtins.open, io.open = self.saved
        del self.X.open


def as_kind(path, kind):
    return {'str': path, 'bytes': os.fsencode(path), 'Path': pathlib.Path(path)}[kind]


def cut(text, b):
    return text.split(b'\n' if b else '\n')


def _fgrep_cases(tier):
    hi = 4 if tier == 'quick' else 5
    out = []
    for b in (False, True):
        for ci in (False, True):
            for m in (1, 2):
                for n in range(0, hi + 1 - ci - (m == 2 and ci) - (b and ci)):
                    out.append(dict(b=b, ci=ci, n=n, m=m))
    return out


CHARS = [(10, 13), (65, 90), (97, 122), (0x85, 0x85), (0x2028, 0x2028), (0x391, 0x3a1), (0x3b1, 0x3c1)]
CICHARS = [(10, 10), (65, 70), (97, 102), (0x130, 0x130), (0xc9, 0xc9), (0xe9, 0xe9), (0x391, 0x392), (0x3b1, 0x3b2)]
BCHARS = [(10, 13), (65, 90), (97, 122), (0xc0, 0xff)]


@harness('F01', cases=_fgrep_cases, bounds='every file of up to 4 (thorough 5) characters, 1 to 3 fewer when ignoring case (Latin and Greek letters, all kinds of line breaks; bytes), every text to look for of 1 or 2 characters, numbered or not; several encodings and kinds of path')
def fgrep(ctx, b, ci, n, m):
    import big.file as X
    raw = ctx.bytes('file', n, BCHARS) if b else ctx.str('file', n, CICHARS if ci else CHARS)
    text = ctx.bytes('text', m, BCHARS) if b else ctx.str('text', m, CICHARS if ci else CHARS)
    kind = ctx.choice('kind of path', ['str', 'bytes', 'Path']) if n < 3 else 'Path' if n == 3 else 'str'
    enc = 'utf-8' if b or n == 0 else ctx.choice('encoding', ['utf-8', 'utf-16']) if n < 3 else 'utf-16'
    kw = {} if b or n == 0 else {'encoding': enc}
    if ci:
        kw['case_insensitive'] = True
    with Disk(ctx, X, raw, enc) as disk:
        r = X.fgrep(as_kind(disk.path, kind), text, **kw)
        e = X.fgrep(as_kind(disk.path, kind), text, enumerate=True, **kw)
    data = raw if b else raw.replace('\r\n', '\n').replace('\r', '\n')
    want = []
    for i, line in enumerate(cut(data, b), 1):
        hit = (text.lower() in line.lower()) if ci else (text in line)
        if hit:
            want.append((i, line))
    ctx.check(list(r) == [line for i, line in want], 'exactly the lines that contain the text, in order, unchanged', lambda: (r, want))
    ctx.check([tuple(x) for x in e] == want, 'with their line numbers, counted from one, if asked', lambda: (e, want))
    ctx.reach('fgrep')


PATTERNS = {
    'ab': lambda s, A, B: A + B in s,
    '^a': lambda s, A, B: s[:1] == A,
    'b$': lambda s, A, B: s[-1:] == B,
    '^$': lambda s, A, B: len(s) == 0,
    'a.b': lambda s, A, B: any(s[i:i + 1] == A and s[i + 2:i + 3] == B for i in range(len(s))),
    'b|^a$': lambda s, A, B: B in s or s == A,
    '(?i)aB': lambda s, A, B: A + B in s.lower(),
}


def _grep_cases(tier):
    hi = 4 if tier == 'quick' else 5
    return [dict(b=b, pat=p, n=n) for b in (False, True) for p in PATTERNS for n in range(0, hi + 1)]


@harness('F01', cases=_grep_cases, bounds='every file of up to 4 (thorough 5) letters, spaces and line breaks, seven regular expressions as text, bytes or compiled')
def grep(ctx, b, pat, n):
    import big.file as X
    al = [(10, 13), (32, 32), (65, 90), (97, 122)] + ([] if b else [(0x85, 0x85), (0x2028, 0x2029)])
    raw = ctx.bytes('file', n, al) if b else ctx.str('file', n, al)
    A, B = (b'a', b'b') if b else ('a', 'b')
    p = pat.encode('ascii') if b else pat
    how = ctx.choice('how', ['text', 'compiled', 'flags'])
    rex, kw = p, {}
    fold = pat.startswith('(?i)')
    if how == 'compiled':
        rex = re.compile(p)
        if ctx.bool('flags given as well'):
            kw['flags'] = re.IGNORECASE
    elif how == 'flags':
        if fold:
            rex = p[4:]
        else:
            fold = True
        kw['flags'] = re.IGNORECASE
    enc = 'utf-8' if b or n == 0 else 'utf-16'
    if not b and n:
        kw['encoding'] = enc
    kind = ctx.choice('kind of path', ['str', 'bytes', 'Path']) if n < 2 else 'Path' if n == 2 else 'str'
    with Disk(ctx, X, raw, enc) as disk:
        r = X.grep(as_kind(disk.path, kind), rex, **kw)
        e = X.grep(as_kind(disk.path, kind), rex, enumerate=True, **kw)
    data = raw if b else raw.replace('\r\n', '\n').replace('\r', '\n')
    want = [(i, line) for i, line in enumerate(cut(data, b), 1) if PATTERNS[pat](line.lower() if fold else line, A, B)]
    ctx.check(list(r) == [line for i, line in want], 'exactly the lines that match, in order, unchanged', lambda: (pat, how, r, want))
    ctx.check([tuple(x) for x in e] == want, 'with their line numbers, counted from one, if asked', lambda: (e, want))
    ctx.reach('grep')


@harness('F01', bounds='text in both functions with an encoding for bytes')
def binary(ctx):
    import big.file as X
    raw = ctx.bytes('file', 1)
    with Disk(ctx, X, raw, 'utf-8') as disk:
        for call in (lambda: X.fgrep(disk.path, b'x', encoding='utf-8'), lambda: X.grep(disk.path, b'x', encoding='utf-8'), lambda: X.grep(disk.path, re.compile(b'x'), encoding='utf-8')):
            try:
                call()
                ctx.fail('an encoding for bytes is refused')
            except ValueError:
                ctx.check(True, 'an encoding for bytes is refused')
    ctx.reach('binary')


# ------------------------------------------------------------------ file names

def legal_exfat(c):
    return c > '\x1f' and c not in '/\\:*?"<>|'


def legal_unix(c):
    return c not in '\0/'


FEW = [(0, 1), (0x1f, 0x23), (0x2e, 0x3f), (0x5c, 0x5c), (0x7c, 0x7e), (0x100, 0x10ffff)]


@harness('F03', cases=lambda tier: [dict(fs=fs, n=n) for fs in ('exfat', 'unix') for n in range(0, (5 if tier == 'quick' else 6))],
         bounds='every name of up to 2 arbitrary Unicode characters, or of up to 4 (thorough 5) of which the control characters are only NUL, U+0001 and U+001F')
def names(ctx, fs, n):
    import big.file as X
    f = X.translate_filename_to_exfat if fs == 'exfat' else X.translate_filename_to_unix
    legal = legal_exfat if fs == 'exfat' else legal_unix
    s = ctx.str('s', n) if n < 3 else ctx.str('s', n, FEW)
    try:
        r = f(s)
    except ValueError:
        ctx.check(n == 0, 'only an empty name is refused')
        return
    ctx.check(n > 0, 'an empty name is refused')
    want = ''
    i = 0
    while i < n:
        c = s[i]
        if legal(c):
            want = want + c
            i += 1
            continue
        if fs == 'exfat' and c == ':' and s[i + 1:i + 2] == ' ':
            part = f(': ')
            i += 2
        else:
            part = f(c)
            i += 1
        ok = len(part) > 0
        for x in part:
            if not legal(x):
                control = '\0' < c < ' '
                if not (x == '?' and ctx.known('F03-KF1', bool(control))):
                    ok = False
        ctx.check(ok, 'every character that is not allowed is replaced by characters that are', lambda: (c, part))
        want = want + part
    ctx.check(r == want, 'allowed characters stay, and the others are replaced one by one', lambda: (s, r, want))
    ctx.reach('names')


# ------------------------------------------------------------------ a model file system

KINDS = ['absent', 'file', 'dir', 'link to file', 'link to dir', 'dangling link', 'fifo']
NOW = 10 ** 9


class Stat:
    def __init__(self, mode, size, mtime, ns):
        self.st_mode = mode
        self.st_size = size
        self.st_mtime = self.st_atime = self.st_ctime = mtime
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = ns
        self.st_ino = self.st_dev = self.st_nlink = 1
        self.st_uid = self.st_gid = 0

    def __getitem__(self, i):
        return (self.st_mode, 1, 1, 1, 0, 0, self.st_size, self.st_mtime, self.st_mtime, self.st_mtime)[i]


class Model:
    """directory /sxfs/p (which may be missing or a file) and its entry x; what they are is decided lazily by the solver"""
    def __init__(self, ctx, X):
        self.ctx = ctx
        self.X = X
        self.touched = []

    def setup(self):
        ctx = self.ctx
        self.parent = ctx.choice('parent', ['dir', 'absent', 'file'])
        self.kind = ctx.choice('kind', KINDS) if self.parent == 'dir' else 'absent'
        self.mtime = ctx.int('mtime', 1, 1000)
        self.size = ctx.int('size', 1, 1000)
        self.mtime_ns = self.mtime * 10 ** 9
        self.ino = 'x'
        return self

    # the operations on the model
    def what(self, path, follow):
        path = os.fsdecode(path).rstrip('/')
        if path == '/sxfs':
            return 'dir'
        if path == '/sxfs/p':
            return self.parent
        if path == '/sxfs/t':
            return 'target'
        assert path == '/sxfs/p/x', path
        if self.parent == 'file':
            raise NotADirectoryError(20, 'Not a directory', path)
        if self.parent == 'absent':
            return 'absent'
        if follow and self.kind.startswith('link to'):
            return self.kind[8:]
        if follow and self.kind == 'dangling link':
            return 'absent'
        return self.kind

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if not self.mine(path):
            return self.saved['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        k = self.what(path, follow_symlinks)
        if k == 'absent':
            raise FileNotFoundError(2, 'No such file or directory', path)
        mode = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'fifo': stat.S_IFIFO}.get(k, stat.S_IFLNK) | 0o755
        if not follow_symlinks and k.endswith('link') or k.startswith('link'):
            return Stat(mode, 17, 17, 17 * 10 ** 9)
        return Stat(mode, self.size, self.mtime, self.mtime_ns)

    def lstat(self, path, *, dir_fd=None):
        return self.stat(path, follow_symlinks=False) if self.mine(path) else self.saved['lstat'](path, dir_fd=dir_fd)

    def mine(self, path):
        try:
            return os.fsdecode(path).startswith('/sxfs')
        except TypeError:
            return False

    def unlink(self, path, *, dir_fd=None):
        if not self.mine(path):
            raise AssertionError(path)
        k = self.what(path, False)
        if k == 'absent':
            raise FileNotFoundError(2, 'No such file or directory', path)
        if k == 'dir':
            raise IsADirectoryError(21, 'Is a directory', path)
        self.change(path, 'absent')

    def rmdir(self, path, *, dir_fd=None):
        if not self.mine(path):
            raise AssertionError(path)
        k = self.what(path, False)
        if k == 'absent':
            raise FileNotFoundError(2, 'No such file or directory', path)
        if k != 'dir':
            raise NotADirectoryError(20, 'Not a directory', path)
        raise OSError(39, 'Directory not empty', path)

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        if not self.mine(path):
            raise AssertionError(path)
        if self.what(path, False) != 'absent':
            raise FileExistsError(17, 'File exists', path)
        if os.fsdecode(path).rstrip('/') == '/sxfs/p/x' and self.parent == 'absent':
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.change(path, 'dir')

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        if not self.mine(path):
            raise AssertionError(path)
        if self.what(path, True) == 'absent':
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.mtime = NOW if times is None and ns is None else times[1] if ns is None else ns[1]

    def opener(self, path, mode='r', *a, **k):
        if not self.mine(path):
            return self.saved['open'](path, mode, *a, **k)
        kind = self.what(path, True)
        if kind == 'dir':
            raise IsADirectoryError(21, 'Is a directory', path)
        if kind == 'absent':
            if 'r' in mode or self.parent != 'dir':
                raise FileNotFoundError(2, 'No such file or directory', path)
            if self.kind == 'dangling link':
                self.kind = 'link to file'
            else:
                self.change(path, 'file')
            self.size, self.mtime = 0, NOW
        else:
            if 'x' in mode:
                raise FileExistsError(17, 'File exists', path)
            if 'w' in mode:
                self.size, self.mtime = 0, NOW
        return io.BytesIO() if 'b' in mode else io.StringIO()

    def change(self, path, to):
        path = os.fsdecode(path).rstrip('/')
        if path == '/sxfs/p':
            self.parent = to
        elif path == '/sxfs/p/x':
            self.kind = to
            self.ino = 'new'
        else:
            raise AssertionError(path)

    NAMES = ('stat', 'lstat', 'unlink', 'mkdir', 'rmdir', 'utime')

    def __enter__(self):
        if not self.ctx.symbolic:
            return self.real_enter()
        self.path = '/sxfs/p/x'
        self.saved = {k: getattr(os, k) for k in self.NAMES}
        self.saved['open'] = builtins.open
        for k in self.NAMES:
            setattr(os, k, getattr(self, k))
        self.saved_remove, os.remove = os.remove, self.unlink
        builtins.open = io.open = self.X.open = self.opener
        return self

    def __exit__(self, *a):
        if not self.ctx.symbolic:
            self.real_look()
            shutil.rmtree(self.dir)
            return
        for k in self.NAMES:
            setattr(os, k, self.saved[k])
        os.remove = self.saved_remove
        builtins.open = io.open = self.saved['open']
        del self.X.open

    # the same, really, in a scratch directory
    def real_enter(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='sxfs'))
        p = os.path.join(self.dir, 'p')
        self.path = x = os.path.join(p, 'x')
        if self.parent == 'file':
            open(p, 'w').close()
        elif self.parent == 'dir':
            os.mkdir(p)
        t = os.path.join(self.dir, 't')

        def file(name):
            with open(name, 'w') as f:
                f.write('#' * self.size)
            os.utime(name, ns=(self.mtime_ns, self.mtime_ns))
        if self.kind == 'file':
            file(x)
        elif self.kind == 'dir':
            os.mkdir(x)
            os.utime(x, ns=(self.mtime_ns, self.mtime_ns))
        elif self.kind == 'link to file':
            file(t)
            os.symlink(t, x)
        elif self.kind == 'link to dir':
            os.mkdir(t)
            os.utime(t, ns=(self.mtime_ns, self.mtime_ns))
            os.symlink(t, x)
        elif self.kind == 'dangling link':
            os.symlink(t, x)
        elif self.kind == 'fifo':
            os.mkfifo(x)
            os.utime(x, ns=(self.mtime_ns, self.mtime_ns))
        self.before = self.mtime
        return self

    def real_look(self):
        def kind(path):
            if os.path.islink(path):
                return 'link to dir' if os.path.isdir(path) else 'link to file' if os.path.isfile(path) else 'dangling link'
            return 'dir' if os.path.isdir(path) else 'file' if os.path.isfile(path) else 'fifo' if os.path.exists(path) else 'absent'
        self.parent = kind(os.path.dirname(self.path))
        self.kind = kind(self.path)
        if os.path.exists(self.path):
            st = os.stat(self.path)
            self.mtime = NOW if abs(st.st_mtime - st.st_ctime) < 5 else int(st.st_mtime)
            self.size = st.st_size if self.kind.endswith('file') else self.size


def stuck(signum, frame):
    raise OSError('stuck opening a pipe')


@harness('F02', cases=lambda tier: [dict(what=w, form=f) for w in ('mkdir', 'unlink', 'touch') for f in ('str', 'Path', 'bytes')],
         bounds='a path that is missing, a file, a directory, a link to either or to nothing, or a named pipe, in a parent that is a directory, missing, or a file; any size and modification time')
def state(ctx, what, form):
    import big.file as X
    m = Model(ctx, X).setup()
    parent, kind, mtime, size = m.parent, m.kind, m.mtime, m.size
    err = None
    with m:
        path = as_kind(m.path, form)
        try:
            if not ctx.symbolic:
                signal.signal(signal.SIGALRM, stuck)
                signal.alarm(10)
            {'mkdir': X.safe_mkdir, 'unlink': X.safe_unlink, 'touch': X.touch}[what](path)
        except OSError as e:
            err = e
        finally:
            if not ctx.symbolic:
                signal.alarm(0)
    is_file = kind in ('file', 'link to file')
    is_dir = kind in ('dir', 'link to dir')
    if what == 'mkdir':
        possible = parent != 'file' and (kind == 'absent' or is_file or is_dir)
        ctx.check((err is None) == possible, 'fails only if no directory can be there', lambda: (parent, kind, repr(err)))
        if err is None:
            ctx.check(m.kind in ('dir', 'link to dir') and m.parent == 'dir', 'if safe_mkdir returns, there is a directory at the path', lambda: (kind, m.kind))
            ctx.check(not is_dir or m.kind == kind, 'a directory that was there is left alone')
        else:
            ctx.check((m.kind, m.parent) == (kind, parent), 'a failure changes nothing', lambda: (parent, kind, m.parent, m.kind))
    elif what == 'unlink':
        ctx.check(err is None, 'safe_unlink does not fail', lambda: (parent, kind, repr(err)))
        ctx.check(m.kind == ('absent' if is_file else kind) and m.parent == parent, 'a file is removed, anything else is left alone', lambda: (kind, m.kind))
    else:
        possible = parent == 'dir'
        ctx.check((err is None) == possible, 'fails only if no file can be there', lambda: (parent, kind, repr(err)))
        if err is None:
            ctx.check(m.kind == {'absent': 'file', 'dangling link': 'link to file'}.get(kind, kind), 'the path exists, and stays what it was', lambda: (kind, m.kind))
            ctx.check(m.mtime == NOW, 'the modification time is the current time', lambda: (kind, m.mtime))
            if is_file:
                ctx.check(m.size == size, 'the contents of an existing file are kept')
            elif not is_dir and kind != 'fifo':
                ctx.check(m.size == 0, 'a new file is empty')
        else:
            ctx.check((m.kind, m.parent) == (kind, parent), 'a failure changes nothing')
    ctx.reach('state')


@harness('F02', cases=lambda tier: [dict(what=w, form=f) for w in ('size', 'mtime', 'mtime_ns') for f in ('str', 'Path', 'bytes')],
         bounds='file_size, file_mtime and file_mtime_ns of such a path, changed at any odd nanosecond of the years 2006 to 2043')
def measure(ctx, what, form):
    import big.file as X
    m = Model(ctx, X).setup()
    # no float of this size is a multiple of less than 2**-23 seconds: the nanoseconds cannot come from one
    m.mtime_ns = ctx.int('ns', 2 ** 59, 2 ** 60 - 1) * 2 + 1
    if ctx.symbolic:
        from sx.symval import SymFloat
        m.mtime = SymFloat(m.mtime_ns * 2 ** 22 // 10 ** 9, 2 ** 22)
    kind, size = m.kind, m.size
    err = r = None
    with m:
        path = as_kind(m.path, form)
        if not ctx.symbolic and os.path.exists(m.path):
            m.mtime = os.stat(m.path).st_mtime
        mtime = m.mtime
        try:
            r = {'size': X.file_size, 'mtime': X.file_mtime, 'mtime_ns': X.file_mtime_ns}[what](path)
        except OSError as e:
            err = e
    there = kind not in ('absent', 'dangling link') and m.parent == 'dir'
    ctx.check((err is None) == there, 'fails only if there is nothing at the path', lambda: (m.parent, kind, repr(err)))
    if err is None:
        if what == 'size':
            if kind.endswith('file'):
                ctx.check(r == size, 'file_size is the number of bytes', lambda: (r, size))
        else:
            want = mtime if what == 'mtime' else m.mtime_ns
            ctx.check(r == want, 'the modification time, of the file a link leads to', lambda: (r, want))
            ctx.check(isinstance(r, int) or what == 'mtime', 'nanoseconds are whole')
    ctx.reach('measure')


class Place:
    """the current directory of a process: a model of os.getcwd and os.chdir (real scratch directories when replaying)"""
    DIRS = ['/sxfs', '/sxfs/a', '/sxfs/a/a', '/sxfs/b', '/sxfs/b/a', '/sxfs/b/a/a']

    def __init__(self, ctx):
        self.ctx = ctx
        self.cwd = '/sxfs'

    def getcwd(self):
        return self.cwd

    def chdir(self, path):
        p = os.path.normpath(os.path.join(self.cwd, os.fsdecode(path)))
        if p not in self.DIRS:
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.cwd = p

    def __enter__(self):
        if self.ctx.symbolic:
            self.saved = os.getcwd, os.chdir
            os.getcwd, os.chdir = self.getcwd, self.chdir
            self.root = '/sxfs'
        else:
            self.saved = os.getcwd()
            self.root = os.path.realpath(tempfile.mkdtemp(prefix='sxcwd'))
            for d in self.DIRS[1:]:
                os.makedirs(self.root + d[5:], exist_ok=True)
            os.chdir(self.root)
        return self

    def where(self):
        return os.getcwd()[len(self.root):] if os.getcwd().startswith(self.root) else '?'

    def __exit__(self, *a):
        if self.ctx.symbolic:
            os.getcwd, os.chdir = self.saved
        else:
            os.chdir(self.saved)
            shutil.rmtree(self.root)


@harness('F02', cases=lambda tier: [dict(steps=k) for k in ((4, 5, 6) if tier == 'quick' else (4, 5, 6, 7))],
         bounds='every history of up to 6 (thorough 7) steps: change directory (relative, up, absolute, missing), enter one of two prepared or a fresh pushd, leave a block normally or by an exception')
def directories(ctx, steps):
    import big.file as X
    with Place(ctx) as place:
        prepared = [X.pushd('a'), X.pushd(place.root + '/b')]
        state = {'left': steps}

        def block():
            while state['left'] > 0:
                state['left'] -= 1
                what = ctx.choice('step', ['leave', 'raise', 'chdir a', 'chdir ..', 'pushd a', 'pushd missing', 'prepared 0', 'prepared 1'])
                if what == 'leave':
                    return
                if what == 'raise':
                    raise KeyError('leave')
                here = place.where()
                if what.startswith('chdir'):
                    try:
                        if not (what == 'chdir ..' and here == ''):
                            os.chdir(what[6:])
                    except OSError:
                        pass
                    continue
                p = prepared[int(what[-1])] if what.startswith('prepared') else X.pushd(what[6:])
                target = {'prepared 1': '/b', 'pushd missing': None}.get(what, here + '/a')
                entered = False
                swallowed = True
                try:
                    with p:
                        entered = True
                        ctx.check(place.where() == target, 'inside the block the given directory is current', lambda: (here, target, place.where()))
                        raised = False
                        try:
                            block()
                        except KeyError:
                            raised = True
                            raise
                    swallowed = False
                except KeyError:
                    swallowed = False
                except OSError:
                    swallowed = False
                    ctx.check(not entered and (target is None or '/sxfs' + target not in Place.DIRS), 'only a missing directory cannot be entered', lambda: (here, target))
                if entered:
                    ctx.check(not swallowed, 'an exception leaves the block as an exception')
                ctx.check(place.where() == here, 'after the block the directory that was current before is current again', lambda: (here, place.where()))
        try:
            block()
        except KeyError:
            pass
        ctx.check(True, 'end')
    ctx.reach('pushd')
