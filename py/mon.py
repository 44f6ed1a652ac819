"""Runs the cases of one property and writes what was observed."""
import argparse, json, multiprocessing, os, random, sys, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


class Case:
    def __init__(self, mon, group, n, seed):
        self.mon, self.group, self.n = mon, group, n
        self.r = random.Random("%s/%s/%s" % (seed, group, n))
        self.input, self.bad = "", False

    def add(self, s):
        self.input += s

    def chance(self, pct):
        return self.r.randrange(100) < pct

    def pick(self, n):
        return self.r.randrange(n)

    def any(self, l):
        return l[self.r.randrange(len(l))]

    def of(self, *l):
        return self.any(l)

    def bytes(self, n):
        return self.r.randbytes(n)

    def count(self, name, n=1):
        self.mon.counters[name] = self.mon.counters.get(name, 0) + n

    def seen(self, *what):
        self.mon.distinct.add(hash(what))

    def check(self, ok, sig, detail):
        if ok:
            return
        self.bad = True
        m = self.mon
        m.counts[sig] = m.counts.get(sig, 0) + 1
        if m.counts[sig] <= 2:
            m.violations.append({"sig": sig, "detail": str(detail)[:3000], "group": self.group, "case": self.n,
                                 "input": self.input[-3000:]})
        raise Stop()


class Stop(BaseException):
    pass


class Mon:
    def __init__(self, tier, seed, only):
        self.tier, self.seed, self.only = tier, seed, only
        self.counters, self.distinct, self.counts, self.violations, self.samples, self.evals = {}, set(), {}, [], [], 0

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def run(self, name, n, f):
        """The cases of a group, shared out among processes."""
        if self.only:
            for i in range(n):
                if self.only == "%s:%d" % (name, i):
                    self.one(name, i, f)
            return
        ctx, jobs, w = multiprocessing.get_context("fork"), [], min(8, os.cpu_count() or 1, n)
        for x in range(w):
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=self.part, args=(wr, name, range(x, n, w), f))
            p.start()
            wr.close()
            jobs.append((p, rd))
        for p, rd in jobs:
            try:
                r = rd.recv()
            except EOFError:
                r = "a worker ended"
            p.join()
            if isinstance(r, str):
                sys.exit(r)
            self.evals += r.evals
            self.distinct |= r.distinct
            for d, e in ((self.counters, r.counters), (self.counts, r.counts)):
                for k, v in e.items():
                    d[k] = d.get(k, 0) + v
            self.violations += r.violations
            self.samples += r.samples

    def part(self, wr, name, cases, f):
        try:
            m = Mon(self.tier, self.seed, "")
            for i in cases:
                m.one(name, i, f)
        except BaseException:
            m = traceback.format_exc()
        wr.send(m)

    def one(self, name, i, f):
        c = Case(self, name, i, self.seed)
        self.evals += 1
        try:
            f(c)
        except Stop:
            pass
        except BaseException:
            t = traceback.format_exc()
            if "/pyscore/" not in t:
                raise
            try:
                c.check(False, "crash:" + name, t[-2500:])
            except Stop:
                pass
        if i < 2 and c.input:
            self.samples.append("%s:%d %s" % (name, i, c.input[:400]))


def main():
    a = argparse.ArgumentParser(prefix_chars="-")
    a.add_argument("-prop")
    a.add_argument("-tier", default="quick")
    a.add_argument("-seed", default="1")
    a.add_argument("-out")
    a.add_argument("-only", default="")
    a = a.parse_args()
    m = Mon(a.tier, a.seed, a.only)
    __import__(a.prop.lower()).run(m)
    json.dump({"evaluations": m.evals, "distinct": len(m.distinct), "counters": m.counters, "samples": m.samples[:20],
               "rule": "", "assumptions": None, "inconclusive": [], "violation_counts": m.counts,
               "violations": m.violations}, open(a.out, "w"))


main()
