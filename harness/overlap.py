"""Overlapping calls (C22): the real calls run in real threads under a scheduler that decides,
step by step, which thread goes on; and in free-running threads.

A step is a line or an instruction executed in the library's own files.  A schedule is a list
of (thread, steps); what is left when it is used up runs to the end, thread after thread.
"""
import collections
import copy
import os
import pickle
import sys
import threading

import enc
import gen
import lifecycle as life
import zoo
from session import Answer, FT, MAPS, Obj, Session

LIMIT = 60
KEPT = []       # exceptions of traced calls, for good: closing a generator that was suspended under a tracer can crash CPython 3.12


class Stuck(Exception):
    pass


class Baton:
    """Runs the given calls, one thread each, handing over exactly where the schedule says."""

    def __init__(self, root, calls, schedule, opcodes, begin, end):
        self.root, self.calls, self.schedule = root, calls, list(schedule)
        self.opcodes = opcodes
        self.begin, self.end = begin, end
        self.sem = [threading.Semaphore(0) for _ in calls]
        self.done = [False] * len(calls)
        self.steps = [0] * len(calls)       # steps made by each thread
        self.left = 0                       # steps the running thread may still make; -1: no limit
        self.pos = -1
        self.over = threading.Event()
        self.loose = False                  # calls wait for each other: let all of them run
        self.where = None                   # the places thread 0 passes, one per step, if asked for

    def next_turn(self):
        """Whose turn is it, and for how many steps?"""
        while self.pos + 1 < len(self.schedule):
            self.pos += 1
            i, n = self.schedule[self.pos]
            if not self.done[i]:
                return i, n
        for i, d in enumerate(self.done):
            if not d:
                return i, -1
        return None, 0

    def hand_over(self, me):
        while not self.loose:
            i, n = self.next_turn()
            if i is None:
                self.over.set()
                return
            self.left = n
            if i == me:
                if n == 0:
                    continue
                return
            self.sem[i].release()
            if me is not None and not self.done[me]:
                if not self.sem[me].acquire(timeout=LIMIT):
                    raise Stuck()
            return
        if all(self.done):
            self.over.set()

    def trace(self, me):
        root, opcodes = self.root, self.opcodes

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                if opcodes and event == "line":
                    return local
                self.steps[me] += 1
                if self.where is not None and me == 0:
                    self.where.append((frame.f_code, frame.f_lasti if opcodes else frame.f_lineno))
                if self.left > 0:
                    self.left -= 1
                elif self.left == 0:
                    self.hand_over(me)
                    if self.left > 0:
                        self.left -= 1
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def body(self, i):
        if not self.sem[i].acquire(timeout=LIMIT):
            return
        self.begin(i)
        err, y = None, None
        if not os.environ.get("VERIF_UNTRACED"):
            sys.settrace(self.trace(i))
        try:
            y = self.calls[i]()
        except Exception as e:
            err = e
        finally:
            sys.settrace(None)
        if err is not None:
            KEPT.append(err)
        self.end(i, err, y)
        self.done[i] = True
        try:
            self.hand_over(i)
        except Stuck:
            pass

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in ts:
            t.start()
        self.hand_over(None)
        seen, still = None, 0
        while not self.over.wait(0.1):
            now = (list(self.steps), list(self.done))
            still = still + 1 if now == seen else 0
            seen = now
            if still == 6 and not self.loose:
                # the running call waits for one that was stopped (a lock): legitimate as long as all come to an end
                self.loose, self.left = True, -1
                for m in self.sem:
                    m.release()
            if still * 0.1 > LIMIT:
                raise Stuck()
        for t in ts:
            t.join(LIMIT)


class Over(life.Player):
    """Calls that overlap on one or two models."""

    def __init__(self, ctx, cases, pristine, root, src):
        h = [{"e": "ask", "o": 1, "m": m, "c": ["c", s, j]} for s in range(1, len(cases) + 1) for m in (1, 2) for j in (1, 2, 3)]
        life.Player.__init__(self, ctx, cases, h, pristine, src)
        self.root = root

    def prepare(self):
        """References, objects, containers.  Returns the questions (object, method, container, adapter)."""
        qs = []
        for s, case in enumerate(self.cases, 1):
            self.ests[s] = case.est
            self.tr.add("fit", s="s%d" % s, a=self.scn.art(case.art))
            self.references(s, case.est)
        for s, case in enumerate(self.cases, 1):
            o = self.convert("s%d" % s, case.est, case.convert)
            if o is None:
                return []
            o.src = s
            self.objs[s] = o
            for j in range(3):
                self.put_("c%d_%d" % (s, j + 1), copy.deepcopy(self.content(s, j + 1)), case.ad)
                for m in sorted({m for m, _ in self.methods[s]}):
                    qs.append((o, m, "c%d_%d" % (s, j + 1), case.ad))
            qs += self.parts(s, o, case)
        return qs

    def parts(self, s, o, case):
        """Steps of a pipeline, called directly: objects that share parts with another."""
        art = case.art
        if art["k"] != "pipe" or not hasattr(o.real, "steps"):
            return []
        try:
            i = 0
            a = art["steps"][0]
            part = o.real.steps[0][1]
            if a["k"] in ("pass",) or part in (None, "passthrough") or not hasattr(part, "transform"):
                return []
        except Exception:
            return []
        oid = self.tr.fresh("o")
        self.tr.add("fit", s="part%d" % s, a=self.scn.art(a))
        self.tr.add("convert", s="part%d" % s, o=oid, ok=True)
        p = Obj(oid, part)
        p.src = s
        return [(p, "transform", "c%d_%d" % (s, j), case.ad) for j in (1, 2)]

    def ends(self, q, k):
        o, m, c, ad = q
        r = self.tr.fresh("a")

        def end(err, y):
            if err is not None:
                self.tr.add("end", k=k, r=r, y=self.scn.raise_ix, note=repr(err)[:300])
            else:
                if hasattr(y, "__next__"):
                    y = list(y)
                self.tr.add("end", k=k, r=r, y=self.scn.val(self.out_(ad, m, y)))
        return end

    def scheduled(self, qs, schedule, opcodes, where=None):
        """One run under a schedule; returns the steps each call made."""
        ks = [self.tr.fresh("k") for _ in qs]
        ends = [self.ends(q, k) for q, k in zip(qs, ks)]

        def begin(i):
            o, m, c, ad = qs[i]
            self.tr.add("begin", k=ks[i], o=o.id, m=m, c=c)

        calls = [lambda q=q: q[3].call(q[0].real, q[1], self.heap[q[2]]) for q in qs]
        b = Baton(self.root, calls, schedule, opcodes, begin, lambda i, err, y: ends[i](err, y))
        b.where = where
        b.run()
        return b.steps

    def free(self, qs, rounds, threads):
        """Threads that run freely, switching as often as the interpreter can."""
        start = threading.Barrier(threads)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)

        def body(i):
            rng = __import__("random").Random(i)
            start.wait(LIMIT)
            for _ in range(rounds):
                q = rng.choice(qs)
                k = self.tr.fresh("k")
                end = self.ends(q, k)
                self.tr.add("begin", k=k, o=q[0].id, m=q[1], c=q[2])
                try:
                    err, y = None, q[3].call(q[0].real, q[1], self.heap[q[2]])
                except Exception as e:
                    err, y = e, None
                end(err, y)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(threads)]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(LIMIT)
        finally:
            sys.setswitchinterval(old)


SEEN = collections.Counter()        # how often a call was stopped at a place of the library


def points(rng, where, most):
    """Preemption points of a call that passes these places: all of them, or some at the places least
    often chosen so far and some spread over the call."""
    n = len(where)
    if n <= most:
        return list(range(1, n + 1))
    at = {}
    for i, p in enumerate(where):
        at.setdefault((p[0].co_filename, p[0].co_name, p[1]), []).append(i + 1)
    places = list(at)
    rng.shuffle(places)
    places.sort(key=lambda p: SEEN[p])
    out = set()
    for p in places[:most - most // 4]:
        SEEN[p] += 1
        out.add(max(1, rng.choice(at[p]) - rng.randrange(2)))
    rest = most - len(out)
    w = n / max(1, rest)
    return sorted(out | {min(n, 1 + int(i * w + rng.random() * w)) for i in range(rest)})


def explore(ctx, pl, qs, most):
    rng = ctx.rng
    o1 = [q for q in qs if q[0] is pl.objs[1]]
    pairs = []
    a = rng.choice(o1)
    same = [q for q in o1 if q[1] == a[1] and q[2] != a[2]]
    other = [q for q in o1 if q[1] != a[1]]
    part = [q for q in qs if q[0] is not pl.objs[1]]
    if same:
        pairs.append((a, rng.choice(same), most))
        b = rng.choice(same)
        pairs.append((b, a, most // 2))
    if other:
        b = rng.choice(other)
        pairs.append((a, b, most // 3))
        pairs.append((b, a, most // 3))
    for b in rng.sample(part, min(2, len(part))):
        pairs.append((a, b, most // 3))
        pairs.append((b, a, most // 3))
    for a, b, k in pairs:
        opc = rng.random() < 0.4
        where = []
        n = pl.scheduled([a, b], [(0, -1)], opc, where)
        k = min(k, max(4, 60000 // max(1, n[0])))        # long calls are stopped less often
        for i in points(rng, where, max(4, k)):
            # a is stopped at step i by the whole of b
            pl.scheduled([a, b], [(0, i), (1, -1)], opc)
            ctx.count("schedules: one preemption")
        for _ in range(k // 3):
            # both stopped in the middle, and a finishes first
            i, j = rng.randint(1, max(1, n[0])), rng.randint(1, max(1, n[1]))
            pl.scheduled([a, b], [(0, i), (1, j), (0, -1), (1, -1)], opc)
            ctx.count("schedules: two preemptions")
        if k >= most // 2:
            c = rng.choice(qs)
            for _ in range(k // 4):
                sch = [(rng.randrange(3), rng.randint(1, max(2, max(n) // 2))) for _ in range(rng.randint(3, 7))]
                pl.scheduled([a, b, c], sch, opc)
                ctx.count("schedules: three calls")


def c22(ctx):
    acts = life.ALL(["convert", "begin", "end", "put"])
    q = ctx.quick
    gen.life_check(ctx, "C22", NS=1, NJ=2, NX=2, NM=1, NO=2, Open=3, Depth=6 if q else 8, Acts=acts)
    pr = life.client()
    root = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "pure_")
    most = 24 if q else 150
    try:
        for f, case, other in life.all_cases(ctx, ctx.n(110, 700)):
            if life.passes_through(case.art) or isinstance(case.ad, life.Files):
                continue
            two = other is not None and ctx.rng.random() < 0.4
            pl = Over(ctx, [case, other] if two else [case], pr, root, "fitted")
            if not pl.ok:
                ctx.scn.traces.remove(pl.tr)
                continue
            qs = pl.prepare()
            if not qs:
                continue
            pl.tr.info["methods"] = repr(pl.methods)
            try:
                explore(ctx, pl, qs, most)
                if ctx.rng.random() < 0.5:
                    pl.free(qs, 12 if q else 60, 4)
                    ctx.count("free-running threads", 4)
            except Stuck:
                pl.tr.add("end", k="stuck", r="stuck", y=pl.scn.raise_ix, note="calls that wait for each other")
            pl.look_all()
            ctx.count("kind:" + case.art["k"])
            if len(ctx.scn.traces) >= 150:
                ctx.flush()
    finally:
        pr.stop()
