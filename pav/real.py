"""Running real tools on scratch directories under observation: files opened for reading (inotify), files changed
(before/after snapshots and inotify), standard input consumed (what is left in the pipe), standard output, exit status."""
import ctypes, os, shutil, stat, struct, subprocess, tempfile, threading
from .core import Inconclusive

_libc = ctypes.CDLL(None, use_errno=True)
IN_ACCESS, IN_MODIFY, IN_CLOSE_WRITE, IN_CLOSE_NOWRITE, IN_OPEN = 1, 2, 8, 16, 32
IN_MOVED_FROM, IN_MOVED_TO, IN_CREATE, IN_DELETE = 64, 128, 256, 512
IN_ISDIR = 0x40000000
MASK = IN_ACCESS | IN_MODIFY | IN_CLOSE_WRITE | IN_CLOSE_NOWRITE | IN_OPEN | IN_MOVED_FROM | IN_MOVED_TO | IN_CREATE | IN_DELETE
UID = 65534

CONTENT = {
    'f1': 'apple,1 x\nbanana,22 y\nbox,3 a\nbox,3 a\ncherry,10 z\n',
    'f2': 'apple,1 x\nbox,4 b\nbox,5 o\nzebra,7 q\n',
    'f3': 'alpha\nbeta\n\n\ngamma\toat\n',
    'd/g': 'one\nfoo bar\n',
    'd/h': 'boat\n',
    'pat': 'o\n^b\n', 'globs': '*.c\n', 'list0': 'f1\0f2\0', 'prog': '{print $1}\n', 'script': 's/o/0/\n', 'script2': '1d\n', 'script3': '$!d\n', 'script4': 's/o/0/\n$!N\nP\nD\n', 'script5': '$=\n',
    'rnd': 'x' * 4096, '-dash': 'dashed o\n', 'a b': 'blank o\n',
}
STDIN = b'stdin one,1\nbox,3 a\nbox,3 a\nyy\n'
_can_drop = None


def can_drop():
    global _can_drop
    if _can_drop is None:
        try:
            subprocess.run(['true'], user=UID, group=UID, extra_groups=[], check=True)
            _can_drop = True
        except (PermissionError, OSError, subprocess.SubprocessError):
            _can_drop = False
    return _can_drop


def setup(root, content=CONTENT, dirs=('d', 'tmpd')):
    for d in dirs:
        p = os.path.join(root, d)
        os.mkdir(p)
        os.chmod(p, 0o755)
        if can_drop():
            os.chown(p, UID, UID)
    for f, c in content.items():
        p = os.path.join(root, f)
        with open(p, 'wb') as h:
            h.write(c if isinstance(c, bytes) else c.encode())
        os.chmod(p, 0o644)
        if can_drop():
            os.chown(p, UID, UID)


def snapshot(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as h:
                    out[rel] = ('file', h.read(), stat.S_IMODE(st.st_mode))
            else:
                out[rel] = (stat.S_IFMT(st.st_mode), b'', stat.S_IMODE(st.st_mode))
    return out


class Scratch:
    def __init__(self, content=None, dirs=('d', 'tmpd')):
        base = os.environ.get('PAV_SCRATCH') or '/tmp'
        self.root = tempfile.mkdtemp(prefix='s', dir=base)
        os.chmod(self.root, 0o755)
        if can_drop():
            os.chown(self.root, UID, UID)
        setup(self.root, CONTENT if content is None else content, dirs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)


class Result:
    pass


ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TMPDIR': '.', 'HOME': '/nonexistent'}


def run(scratch, argv, stdin=STDIN, watch=True, timeout=10, env=None, cwd=None):
    """run argv in the scratch directory; observe it"""
    root = scratch.root
    ifd, wds = -1, {}
    if watch:
        ifd = _libc.inotify_init1(0o4000 | 0o2000000)
        if ifd < 0:
            raise Inconclusive('no inotify')
        for dp, dn, _ in os.walk(root):
            wd = _libc.inotify_add_watch(ifd, dp.encode(), MASK)
            if wd < 0:
                raise Inconclusive('no inotify watch')
            wds[wd] = os.path.relpath(dp, root)
    before = snapshot(root) if watch else None
    if watch:                      # forget the events of taking the snapshot
        drain(ifd, {})
    r_in, w_in = os.pipe()
    try:
        if stdin:
            os.write(w_in, stdin)          # fits the pipe buffer
        os.close(w_in)
        w_in = -1
        kw = dict(user=UID, group=UID, extra_groups=[]) if can_drop() else {}
        p = subprocess.Popen(argv, stdin=r_in, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or root,
                             env=env or ENV, start_new_session=True, **kw)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            raise Inconclusive('timeout: ' + argv[0])
        left = b''
        while True:
            b = os.read(r_in, 65536)
            if not b:
                break
            left += b
    finally:
        os.close(r_in)
        if w_in >= 0:
            os.close(w_in)
    r = Result()
    r.rc, r.out, r.err, r.stdin_used = p.returncode, out, err, len(left) < len(stdin)
    if watch:
        ev = drain(ifd, wds)
        os.close(ifd)
        r.events = ev
        r.read = {n for n, m in ev if not m & IN_ISDIR and m & (IN_ACCESS | IN_CLOSE_NOWRITE)}
        r.listed = {n for n, m in ev if m & IN_ISDIR and m & (IN_OPEN | IN_ACCESS)}
        r.opened_w = {n for n, m in ev if m & IN_CLOSE_WRITE}
        r.after = snapshot(root)
        r.before = before
        r.changed = {k for k in set(before) | set(r.after) if before.get(k) != r.after.get(k)}
        r.touched = r.changed | {n for n, m in ev if m & (IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO | IN_CLOSE_WRITE | IN_MODIFY)}
        # temporary files (neither there before nor after the run) are the tool's own business
        own = {n for n, _ in ev if n not in before and n not in r.after}
        r.read, r.touched, r.opened_w = r.read - own, r.touched - own, r.opened_w - own
    return r


def drain(fd, wds):
    out = []
    while True:
        try:
            b = os.read(fd, 1 << 16)
        except BlockingIOError:
            return out
        i = 0
        while i < len(b):
            wd, mask, _, ln = struct.unpack_from('iIII', b, i)
            name = b[i + 16:i + 16 + ln].rstrip(b'\0').decode('utf-8', 'surrogateescape')
            i += 16 + ln
            if wd in wds and (name or True):
                d = wds[wd]
                full = name if d == '.' else (os.path.join(d, name) if name else d)
                if full:
                    out.append((full, mask))
