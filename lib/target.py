"""Loads the implementation from /repo's working tree and runs it, observing only its public interface."""
import contextlib, io, logging, math, os, resource, signal, sys, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


class Hang(BaseException):
    """The call did not return in time. (BaseException: no handler of the implementation may swallow it.)"""


def _alarm(*_):
    raise Hang()


class Loaded:
    """The modules of the implementation (imported once, with what they print discarded)."""
    _mods = {}

    def __getattr__(self, name):
        if name not in self._mods:
            if REPO not in sys.path:
                sys.path.insert(0, REPO)
            import importlib
            null = open(os.devnull, "w")
            old = sys.stdout
            sys.stdout = null       # the loggers of the implementation bind sys.stdout when they are imported
            try:
                self._mods[name] = importlib.import_module(name)
            finally:
                sys.stdout = old
        return self._mods[name]


M = Loaded()
hangs = 0


def call(f, *a, limit=10, **k):
    """-> ("ok", result) | ("err", text) | ("hang", "")"""
    global hangs
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            r = f(*a, **k)
        return "ok", r
    except Hang:
        hangs += 1
        return "hang", ""
    except (Exception, SystemExit) as x:
        return "err", "%s: %s" % (type(x).__name__, x)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def logging_on(*modules):
    """The implementation's tracing switched on (its handlers write to /dev/null)."""
    logs = [getattr(M, m).logger for m in modules if hasattr(getattr(M, m), "logger")]
    old = [l.level for l in logs]
    for l in logs:
        l.setLevel(logging.DEBUG)
    try:
        yield
    finally:
        for l, o in zip(logs, old):
            l.setLevel(o)


def finite(x):
    try:
        return math.isfinite(x)
    except Exception:
        return False


def load_file(name, _got={}):
    """A module whose file name is no identifier."""
    if name not in _got:
        import importlib.util
        M.agents
        spec = importlib.util.spec_from_file_location(name.replace(".", "_"), os.path.join(REPO, name))
        m = importlib.util.module_from_spec(spec)
        with contextlib.redirect_stdout(io.StringIO()):
            spec.loader.exec_module(m)
        _got[name] = m
    return _got[name]
