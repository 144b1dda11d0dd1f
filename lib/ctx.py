"""Bookkeeping of one check: obligations, violations, undecided cases, parallel evaluation."""
import collections, multiprocessing, os, signal, time, traceback
import engine


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viols = {}
        self.gaps = collections.Counter()
        self.obs = collections.Counter()
        self.notes = {}
        self.analysed = set()
        self.modelled = set()
        self.paths = 0
        self.branches = 0
        self.path = None
        self._dump = None
        self.deadline = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def late(self):
        """Is the time for this check used up?"""
        return self.deadline is not None and time.time() > self.deadline

    def dump(self):
        if self._dump is None:
            self._dump = engine.load_dump(self.path)
        return self._dump

    # results are plain tuples, so that they can come from worker processes
    def viol(self, key, msg):
        self.viols.setdefault(key, msg)

    def gap(self, key):
        self.gaps[key] += 1

    def ob(self, rule, n=1):
        self.obs[rule] += n

    def par(self, func, items, procs=None):
        """Evaluates func(sub, item) for every item in worker processes and merges what they report."""
        items = list(items)
        if os.environ.get("FD_SAMPLE"):
            # for development: only every n-th item
            items = items[::int(os.environ["FD_SAMPLE"])]
        self.dump()
        procs = procs or min(os.cpu_count() or 4, 8)
        global _job
        _job = (self, func)
        n = max(1, min(40, (len(items) + procs * 4 - 1) // (procs * 4)))
        chunks = [items[i:i + n] for i in range(0, len(items), n)]
        with multiprocessing.get_context("fork").Pool(procs) as p:
            for sub in p.imap_unordered(_work, chunks):
                self.merge(sub)
                if self.viols:
                    p.terminate()
                    break

    def merge(self, sub):
        viols, gaps, obs, analysed, modelled, paths, branches, notes = sub
        for k, v in viols.items():
            self.viols.setdefault(k, v)
        self.gaps.update(gaps)
        self.obs.update(obs)
        self.analysed |= analysed
        self.modelled |= modelled
        self.paths += paths
        self.branches += branches
        self.notes.update(notes)

    def export(self):
        return (self.viols, dict(self.gaps), dict(self.obs), self.analysed, self.modelled, self.paths, self.branches, self.notes)

    def absorb(self, eng, outs):
        self.analysed |= eng.analysed
        self.modelled |= eng.modelled
        self.branches += eng.branches
        eng.branches = 0
        self.paths += len(outs)

    def floor_failures(self, floors):
        return ["%s: %d < %d" % (k, self.obs.get(k, 0), n) for k, n in floors.items() if self.obs.get(k, 0) < n]

    def gaps_sorted(self):
        return sorted(self.gaps.items(), key=lambda x: -x[1])

    def coverage(self, spec):
        own = sorted(x for x in self.analysed if "flatdata" in x)
        return {
            "explanation": spec["explanation"],
            "obligations": sum(self.obs.values()),
            "rules": dict(sorted(self.obs.items())),
            "undecided": sum(self.gaps.values()),
            "undecided_kinds": dict(self.gaps_sorted()[:40]),
            "paths": self.paths,
            "decided_branches": self.branches,
            "functions_analysed": len(self.analysed),
            "functions_of_flatdata": own[:200],
            "library_functions_modelled": sorted(self.modelled)[:200],
            "notes": self.notes,
        }


class TimeUp(BaseException):
    pass


def time_up(*a):
    raise TimeUp()


def _work(chunk):
    ctx, func = _job
    signal.signal(signal.SIGALRM, time_up)
    s = Ctx(ctx.pid, ctx.tier, ctx.seed)
    s.path, s._dump, s.deadline = ctx.path, ctx._dump, ctx.deadline
    for it in chunk:
        if s.late():
            s.gap("not reached in time")
            continue
        left = s.deadline - time.time() if s.deadline is not None else 1e6
        signal.setitimer(signal.ITIMER_REAL, max(1, min(left, 240 if s.thorough else 120)))
        try:
            func(s, it)
        except TimeUp:
            s.gap("time limit for %s" % str(it)[:80])
        except Exception as e:
            s.gap("analysis failed on %s: %s: %s" % (str(it)[:80], type(e).__name__, str(e)[:200]))
            if os.environ.get("FD_TRACE"):
                traceback.print_exc(limit=-4)
                os.environ.pop("FD_TRACE")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return s.export()
