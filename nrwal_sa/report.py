"""Obligations, violations and evidence of one check."""
import resource
import signal
import time
import traceback

from . import mtbdd

TOTAL_S = 620           # one check, all parts together
MEMORY = 14 << 30
_T0 = time.time()
_ends = []              # deadlines of the parts being run, outermost first


def _arm():
    if _ends:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(_ends) - time.time()))
    else:
        signal.setitimer(signal.ITIMER_REAL, 0)


def limit_memory():
    try:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard == resource.RLIM_INFINITY else min(MEMORY, hard), hard))
    except (ValueError, OSError):
        pass


class PartTimeout(BaseException):
    pass


def _alarm(*_):
    raise PartTimeout()


class Violation:
    def __init__(self, rule, where, what, key=None):
        self.rule, self.where, self.what = rule, where, what
        self.key = key or (rule + '@' + where.split(' ')[-1])

    def __str__(self):
        return '[%s] %s: %s' % (self.rule, self.where, self.what)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.oks, self.unks, self.violations = [], [], []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.floors = []

    def ok(self, rule, where, what=''):
        self.oks.append('[%s] %s: %s' % (rule, where, what))
        self.counts['obligations of rule ' + rule] = self.counts.get('obligations of rule ' + rule, 0) + 1

    def bad(self, rule, where, what, key=None):
        v = Violation(rule, where, what, key)
        if str(v) not in [str(x) for x in self.violations]:
            self.violations.append(v)

    def unk(self, rule, where, what=''):
        u = '[%s] %s: %s' % (rule, where, what)
        if u not in self.unks:
            self.unks.append(u)

    def judge(self, verdict, rule, where, good, badmsg):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(rule, where, good)
        elif verdict is False:
            self.bad(rule, where, badmsg)
        else:
            self.unk(rule, where, good)

    def part(self, name, fn, *args, limit=150):
        """one part of a check: what it cannot analyse is recorded as undecided, the other parts go on"""
        signal.signal(signal.SIGALRM, _alarm)
        end = min(time.time() + limit, _T0 + TOTAL_S)
        if _ends and time.time() >= min(_ends):
            raise PartTimeout()
        _ends.append(end)
        _arm()
        try:
            return fn(*args)
        except PartTimeout:
            if len(_ends) > 1 and time.time() >= min(_ends[:-1]):
                raise
            self.unk('analysis', name, 'part stopped after %d s' % limit)
        except MemoryError:
            mtbdd.forget()
            self.unk('analysis', name, 'part stopped: out of memory')
        except Exception as e:      # noqa
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk('analysis', name, 'not analysable: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno))
        finally:
            _ends.pop()
            _arm()
        return None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, n):
        """instances of a rule that must have been seen for the verdict to mean anything"""
        self.floors.append((k, n))

    def finish(self, mod):
        for k, n in self.floors:
            if self.counts.get(k, 0) < n and not self.violations:
                self.unk('coverage', 'package', '%s: only %d instances analysed, expected at least %d'
                         % (k, self.counts.get(k, 0), n))
        self.rules = getattr(mod, 'RULES', [])
        self.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))

    def coverage(self, ctx):
        return {
            'explanation': 'static analysis; rules applied: ' + ' / '.join(self.rules),
            'source_digest': ctx.prog.digest,
            'modules_parsed': len(ctx.prog.modules),
            'functions_in_package': len(ctx.prog.all_funcs()),
            'functions_analysed_by_value_flow': len(ctx.analysed),
            'value_flow_events': ctx.n_events,
            'counts': dict(sorted(self.counts.items())),
            'obligations_discharged': len(self.oks),
            'obligations_undecided': len(self.unks),
            'undecided': self.unks[:40],
            'sample_obligations': self.oks[:25],
            'violations': [str(v) for v in self.violations],
        }
