"""Client programs for the scheduler engine. A program is a list of threads, a thread a list of operations."""
import itertools

def bodies(alpha, maxlen):
    return [b for n in range(1, maxlen + 1) for b in itertools.product(alpha, repeat=n)]

ROT = {"push": ("empl", "push", "pushm"), "tpush": ("templ", "tpush", "tpushm")} # equivalent ways to send, used in turn
def number(threads, argops, rotate=False):
    """gives every value-carrying operation its own value, so that the origin of every element is known"""
    out, v = [], 1
    for t in threads:
        l = []
        for o in t:
            if o in argops: l.append("%s%d" % (ROT[o][v % 3] if rotate and o in ROT else o, v)); v += 1
            else: l.append(o)
        out.append(l)
    return out

def prog(threads, argops=("push", "pushm", "empl", "tpush", "tpushm", "templ"), rotate=False, **par):
    w = ["%s%s" % (k, v) for k, v in par.items() if v is not True and v is not None] + [k for k, v in par.items() if v is True]
    for t in number(threads, argops, rotate): w += ["T"] + l_(t)
    return "_".join(w)
def l_(x): return list(x)

def all_programs(alpha, nthreads, maxlen, keep=lambda ts: True, **par):
    bs = bodies(alpha, maxlen)
    return [prog(ts, rotate=True, **par) for ts in itertools.combinations_with_replacement(bs, nthreads) if keep(ts)]

def P(text, **par): return prog([t.split() for t in text.split("|")], **par)

def one_close(ts): return interesting(ts) and sum(t.count("close") for t in ts) <= 1

def interesting(ts):
    """something must be exchanged between the threads"""
    flat = [o for t in ts for o in t]
    return any(o.startswith(("push", "empl", "tpush", "templ")) for o in flat) or "close" in flat

def chan_c01(tier):
    A2 = ["push", "tpush", "pop", "tpop", "close"]
    r = []
    for cap, pre in ((1, 0), (1, 1), (2, 1)): r += all_programs(A2, 2, 2, interesting, cap=cap, pre=pre)
    for cap in (1, 2, 3): r += [P(t, cap=cap) for t in (
        "push pushm empl | pop pop pop", "push push | drain | close", "pushm push | iter | close", "empl tpushm templ | pop tpop | close",
        "push push | push | pop pop pop", "push | push | pop pop", "push | pop | pop | close", "tpush | tpush | tpop pop | close",
        "push close | push | drain", "push close | iter | tpop", "pushm empl | pop closed | close", "tpush push | pop tpop | pop close")]
    r += [P(t, cap=0) for t in ("tpush | tpop | close", "push | close | tpush", "pop | push close")]
    r += [P(t, cap=1, pre=1) for t in ("push push | pop | pop | close", "push | tpush tpush | pop pop", "push | drain | close")]
    if tier == "thorough":
        r += all_programs(["push", "tpush", "pop", "tpop", "close"], 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5, cap=1, pre=0)
        r += all_programs(["push", "pop", "close"], 3, 2, interesting, cap=2, pre=1)
        r += all_programs(["push", "tpush", "pop", "tpop", "close", "iter", "empl", "templ", "closed"], 2, 2, interesting, cap=1, pre=0)
        r += all_programs(["push", "pop", "tpop", "close"], 2, 3, interesting, cap=1, pre=1)
        r += all_programs(["push", "pop"], 4, 1, interesting, cap=1, pre=0) + all_programs(["push", "pop", "close"], 4, 1, interesting, cap=1, pre=1)
        r += [P(t, cap=c) for c in (1, 2, 3) for t in ("push push push | drain | close", "push | push | drain | close")]
        r += [P(t, cap=c) for c in (1, 2) for t in ("push push | push push | pop pop | pop pop", "push push | push push | drain | drain | close", "push push push | iter | iter | close")]
    return list(dict.fromkeys(r))

def chan_c02(tier):
    A = ["push", "pop", "close"]
    r = all_programs(A, 3, 1, interesting, cap=1, pre=0) + all_programs(A, 3, 1, interesting, cap=1, pre=1) + all_programs(A, 2, 2, interesting, cap=1, pre=1)
    r += all_programs(["push", "pop", "close", "tpush", "tpop"], 4, 1, lambda ts: interesting(ts) and len(set(ts)) > 1, cap=1, pre=0)
    r += all_programs(["push", "pop", "close"], 4, 1, lambda ts: interesting(ts) and len(set(ts)) > 1, cap=1, pre=1)
    for pre in (0, 2): r += all_programs(["push", "pop", "close"], 4, 1, lambda ts: interesting(ts) and len(set(ts)) > 1, cap=2, pre=pre)
    r += all_programs(["push", "pop"], 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 4, cap=2, pre=2) + all_programs(["push", "pop"], 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 4, cap=2, pre=0)
    A4 = ["push", "tpush", "pop", "tpop"]
    for pre in (0, 2): r += all_programs(A4, 4, 1, lambda ts: interesting(ts) and len(set(ts)) > 1, cap=2, pre=pre) + all_programs(A4, 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 4, cap=2, pre=pre)
    r += [P(t, cap=2, pre=p) for p, t in ((2, "push | push | tpop tpop"), (2, "push | push | pop | tpop"), (0, "pop | pop | tpush tpush"), (0, "iter | push | tpush close"))]
    r += [P(t, cap=c, spur=1) for c in (1, 2) for t in ("push push | pop pop", "push | pop | close", "push push | pop | pop", "push push | drain | close", "pop | pop | close", "push push | iter | close")]
    r += [P(t, cap=2, pre=2) for t in ("push | push | pop | pop", "push | push | close", "push push | tpop tpop", "push | iter | close")]
    r += [P(t, cap=1) for t in ("pop | pop | push push", "pop | pop | pop | close", "pop | pop | tpush tpush", "push push push | pop pop pop")]
    if tier == "thorough":
        r += [P(t, cap=c, spur=1) for c in (1, 2) for t in ("push push push | drain | close",)] + [P("push | push | iter | close", cap=2, pre=2)]
        r += all_programs(A, 3, 2, interesting, cap=1, pre=1, spur=1)
        r += all_programs(["push", "pop", "tpush", "tpop", "close"], 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5, cap=1, pre=1)
        r += all_programs(["push", "pop", "close"], 5, 1, interesting, cap=1, pre=0) + all_programs(["push", "pop", "close"], 5, 1, interesting, cap=2, pre=2)
    return list(dict.fromkeys(r))

def chan_throw(tier):
    A = ["push", "pop", "close"]
    r = all_programs(A, 3, 1, interesting, cap=1, pre=0, throw=1) + all_programs(A, 3, 1, interesting, cap=1, pre=1, throw=1)
    r += all_programs(["push", "tpush", "pop", "tpop"], 2, 2, interesting, cap=1, pre=0, throw=1)
    r += [P(t, cap=1, pre=1, throw=1) for t in ("push | push | pop pop", "push | push | pop pop pop", "empl | pushm | pop pop", "push | tpushm | pop tpop", "push | push | tpop tpop")]
    r += [P(t, cap=1, throw=1) for t in ("pop | pop | push push", "pop | pop | empl templ", "pop | pop | tpush | push")]
    if tier == "thorough":
        r += all_programs(A, 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5, cap=1, pre=1, throw=2)
        r += all_programs(["push", "pop"], 4, 1, interesting, cap=1, pre=1, throw=2)
        r += all_programs(["push", "pop"], 4, 1, interesting, cap=1, pre=0, throw=2)
    return list(dict.fromkeys(r))

def xch_c04(tier):
    A = ["push", "pop", "tpop", "close"]
    r = all_programs(A, 2, 2, interesting, pre=0) + all_programs(A, 2, 2, interesting, pre=1) + all_programs(A, 3, 1, interesting, pre=0)
    r += [P(t) for t in ("push pushm empl | pop pop", "push | push | pop pop", "push push | iter | close", "push push close | iter", "push close | push | drain", "push | pop tpop | pop close",
                         "pushm | empl | tpop pop", "push | pop | pop | close", "push push | tpop tpop | tpop", "push | drain | iter | close")]
    r += all_programs(A, 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= (4 if tier == "quick" else 5), pre=0)
    r += all_programs(A, 4, 1, interesting, pre=1)
    if tier == "thorough":
        r += all_programs(A, 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5, pre=1) + all_programs(["push", "pop", "close"], 3, 2, interesting, pre=1)
        r += all_programs(["push", "pop", "tpop", "close"], 2, 3, interesting, pre=0) + all_programs(A, 4, 1, interesting, pre=0)
    return list(dict.fromkeys(r))

def xch_c05(tier):
    A = ["push", "pop", "close"]
    r = all_programs(A, 3, 1, interesting) + all_programs(A, 4, 1, lambda ts: interesting(ts) and len(set(ts)) > 1) + all_programs(A, 2, 2, interesting, pre=1)
    r += [P(t, spur=1) for t in ("push | pop", "push | pop | close", "push push | pop pop", "push | pop | pop", "push push | iter | close", "pop | pop | close", "push | drain | drain | close")]
    r += [P(t) for t in ("pop | pop | push push", "pop | pop | pop | close", "pop | pop | push close", "push | push | pop | pop")]
    r += all_programs(A, 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 4, spur=1) + all_programs(A, 2, 3, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5)
    if tier == "thorough":
        r += all_programs(A, 3, 2, interesting, spur=1) + all_programs(A, 5, 1, interesting) + all_programs(A, 2, 3, interesting, spur=1)
    return list(dict.fromkeys(r))

def xch_throw(tier):
    r = all_programs(["push", "pop", "close"], 3, 1, interesting, throw=1) + all_programs(["push", "pop", "tpop"], 2, 2, interesting, throw=1)
    r += [P(t, throw=1) for t in ("pop | pop | push", "pop | pop | push push", "pop | pop | pushm empl", "push | push | pop pop", "tpop | pop | push")]
    if tier == "thorough":
        r += all_programs(["push", "pop", "tpop", "close"], 3, 2, lambda ts: interesting(ts) and sum(map(len, ts)) <= 5, throw=2)
    return list(dict.fromkeys(r))

def iter_throw(tier): return 1 if tier == "quick" else 2
def chan_iter(tier):
    r = [P(t, cap=c, throw=iter_throw(tier)) for c in (2, 3) for t in ("push close | iterc", "push push close | iterc", "close | iterc")]
    r += [P("push push | iterc | close", cap=2, throw=1), P("push | iterc | iterc | close", cap=1, throw=1)]
    return r + [P(t, cap=2, pre=2, throw=iter_throw(tier)) for t in ("close iterc", "push close | iterc")]
def xch_iter(tier):
    return [P(t, throw=iter_throw(tier)) for t in ("push close | iterc", "push push close | iterc", "push push | iterc | close", "push | iterc | iterc | close", "close | iterc")] + [P(t, pre=1, throw=iter_throw(tier)) for t in ("close iterc", "push close | iterc")]

def chan_c03(tier):
    r = []
    for c in (1, 2):
        r += [P(t, cap=c, stale=1) for t in ("push close | readflag pop", "push | close | readflag", "close | readflag readflag", "push push | pop pop", "tpush close | tpop readflag", "push | iter | close", "empl | pop | readflag",
                                            "close | closed push", "close | tpush closed | readflag", "close | closed | readflag", "push push close | drain | readflag", "pushm | push | pop | tpop")]
    r += all_programs(["push", "pop", "tpush", "tpop", "close", "readflag"], 2, 2, lambda ts: one_close(ts) and sum(map(len, ts)) <= 3, cap=1, stale=1)
    if tier == "thorough": r += all_programs(["push", "pop", "tpush", "tpop", "close", "readflag"], 2, 2, one_close, cap=1, stale=2) + all_programs(["push", "tpop", "close", "readflag"], 3, 2, lambda ts: one_close(ts) and sum(map(len, ts)) <= 5, cap=1, stale=1)
    return list(dict.fromkeys(r))
def xch_c03(tier):
    r = [P(t, stale=1) for t in ("push close | readflag pop", "push | close | readflag", "close | readflag readflag", "push push | pop pop", "push close | tpop readflag", "push | iter | close", "empl | pop | readflag",
                                 "close | closed push", "close | closed | readflag", "pushm | push | pop | tpop", "push push close | drain | readflag")]
    r += all_programs(["push", "pop", "tpop", "close", "readflag"], 2, 2, lambda ts: one_close(ts) and sum(map(len, ts)) <= 3, stale=1)
    if tier == "thorough": r += all_programs(["push", "pop", "tpop", "close", "readflag"], 2, 2, one_close, stale=2) + all_programs(["push", "tpop", "close", "readflag"], 3, 2, lambda ts: one_close(ts) and sum(map(len, ts)) <= 5, stale=1)
    return list(dict.fromkeys(r))

# ---- mutex / shared_mutex: guard life cycles. The generator simulates one thread's slots, so that no thread locks a
# mutex it already holds (undefined behaviour) and no slot is overwritten.
def guard_bodies(maxlen, shared, mutexes=(0,), rec_lock=False):
    out = []
    def step(w, r, op):
        """returns the new (w, r) or None when the operation makes no sense here; try may fail: both cases must be valid"""
        k = op.rstrip("0123456789"); d = op[len(k):]; w, r = list(w), list(r)
        if k in ("lock", "try", "slock", "stry"):
            m, s = int(d[0]), int(d[1]); t = w if k in ("lock", "try") else r
            if t[s] is not None or any(x is not None and x[0] == m for x in ((r if t is w else w) if rec_lock else w + r)): return None
            t[s] = (m, k in ("try", "stry"))
            return w, r
        if k in ("rel", "srel", "inc", "get"):
            s = int(d); t = w if k in ("rel", "inc") else r
            if t[s] is None: return None
            if k in ("rel", "srel"): t[s] = None
            return w, r
        if k == "mvc":
            s = int(d); hit = False
            for t in (w, r):
                if t[s] is not None and t[1 - s] is None: t[1 - s] = t[s]; t[s] = None; hit = True
            return (w, r) if hit else None
        if k == "mva":
            s = int(d); hit = False
            for t in (w, r):
                if t[s] is not None and t[1 - s] is not None:
                    if t[s][1] or t[1 - s][1]: return None      # keep the simulation exact: only after blocking locks
                    t[1 - s] = t[s]; t[s] = ("moved", False); hit = True
            return (w, r) if hit else None
        if k == "swp":
            hit = False
            for t in (w, r):
                if t[0] is not None and t[1] is not None:
                    if t[0][1] or t[1][1]: return None
                    t[0], t[1] = t[1], t[0]; hit = True
            return (w, r) if hit else None
    alpha = ["%s%d%d" % (k, m, s) for k in (("lock", "try", "slock", "stry") if shared else ("lock", "try")) for m in mutexes for s in (0, 1)]
    alpha += ["%s%d" % (k, s) for k in (("rel", "srel", "inc", "get") if shared else ("rel", "inc")) for s in (0, 1)] + ["mvc0", "mvc1", "mva0", "mva1", "swp"]
    def rec(pre, w, r):
        if pre: out.append(pre)
        if len(pre) == maxlen: return
        for o in alpha:
            n = step(w, r, o)
            if n: rec(pre + (o,), *n)
    rec((), [None, None], [None, None])
    return out

def Q(text): return "_".join("T_" + "_".join(t.split()) for t in text.split("|"))
def canon(b):
    """the two slots and the two mutexes of one thread are interchangeable: keep bodies whose first guard uses slot 0"""
    return b[0][-1] == "0"

def mtx_c06(tier):
    b1 = [b for b in guard_bodies(4 if tier == "quick" else 6, False) if canon(b)]
    others = ["lock00 inc0 rel0", "try00 inc0 rel0", "try00", "lock00 inc0 mvc0 rel1 lock00 inc0"]
    r = [Q(" ".join(b) + " | " + o) for b in b1 for o in others]
    b2 = [b for b in guard_bodies(5 if tier == "quick" else 6, False, (0, 1)) if canon(b) and any(x.startswith(("mva", "swp")) for x in b) and b[0] == "lock00" and "lock11" in b and not any(x.startswith("try") for x in b)]
    r += [Q(" ".join(b) + " | " + o) for b in b2 for o in ("try00 inc0 rel0 try11 inc1", "lock00 inc0 rel0", "lock10 inc0 rel0")]
    r += [Q(t) for t in ("lock00 inc0 rel0 | lock00 inc0 rel0 | lock00 inc0 rel0", "lock00 inc0 | try00 inc0 | lock00 mvc0 inc1", "try00 inc0 | try00 inc0 | try00 inc0", "lock00 inc0 | lock10 inc0 | try00 inc0 rel0 try10 inc0")]
    b3 = [b for b in guard_bodies(3, False) if canon(b)]
    r += [Q(" | ".join(" ".join(x) for x in ts)) for ts in itertools.combinations_with_replacement(b3, 3) if tier == "thorough" or sum(map(len, ts)) <= 6]
    return list(dict.fromkeys(r))

def shm_c07(tier):
    b1 = [b for b in guard_bodies(3, True) if canon(b)]
    others = ["lock00 inc0 rel0", "slock00 get0 srel0", "try00 inc0 rel0 stry00 get0", "slock00 get0 mvc0 get1 srel1 try00"]
    r = [Q(" ".join(b) + " | " + o) for b in b1 for o in others]
    b2 = [b for b in guard_bodies(4 if tier == "quick" else 5, True, (0, 1)) if canon(b) and any(x.startswith(("mva", "swp")) for x in b) and not any("try" in x for x in b)]
    r += [Q(" ".join(b) + " | " + o) for b in b2 for o in ("try00 inc0 rel0 stry11 get1", "lock00 inc0 rel0", "slock10 get0 srel0")]
    r += [Q(t) for t in ("lock00 inc0 | slock00 get0 | slock00 get0", "slock00 get0 | slock00 get0 | try00 inc0", "lock00 inc0 rel0 slock00 get0 | lock00 inc0 rel0 | stry00 get0", "slock00 | slock00 | slock00 srel0 lock00 inc0",
                          "lock00 inc0 | lock00 inc0 | slock00 get0", "stry00 get0 | stry00 get0 | lock00 inc0")]
    b3 = [b for b in guard_bodies(2 if tier == "quick" else 3, True) if canon(b)]
    r += [Q(" | ".join(" ".join(x) for x in ts)) for ts in itertools.combinations_with_replacement(b3, 3) if sum(map(len, ts)) <= 6]
    if tier == "thorough":
        b4 = [b for b in guard_bodies(4, True) if canon(b)]
        r += [Q(" ".join(b) + " | " + o) for b in b4 for o in others]
    return list(dict.fromkeys(r))
def holds(maxlen, shared, others):
    """one thread keeps its guards until the others are done: a try-lock that waits for a guard never returns"""
    return [Q(" ".join(b) + " hold | " + o) for b in guard_bodies(maxlen, shared) if canon(b) for o in others]
def mtx_hold(tier): return holds(2 if tier == "quick" else 4, False, ["try00 inc0", "try00 rel0 try01", "try10 try01 inc0"]) + [Q(t) for t in ("lock00 hold | try00 | try00 inc0", "lock00 lock11 mva0 hold | try00 inc0 rel0 try11", "lock00 lock11 swp rel0 hold | try00 inc0 rel0 try10 inc0")]
def shm_hold(tier): return holds(2 if tier == "quick" else 3, True, ["try00 inc0", "stry00 get0", "stry00 try01", "slock00 get0"]) + [Q(t) for t in ("slock00 hold | stry00 get0 | try00", "lock00 hold | stry00 | try00", "lock00 lock11 mva0 hold | stry00 get0 srel0 try11", "slock00 slock11 mva0 hold | try00 inc0 rel0 try10")]
def mtx_user(tier): return [Q(t) for t in ("lock00 inc0 rel0 | lock00 inc0", "lock00 mvc0 inc1 rel1 | try00 inc0", "lock00 lock11 mva0 | try00 rel0 try10 inc0", "lock00 lock11 swp rel0 inc1 | try00 inc0 | try10 inc0", "try00 inc0 | try00 inc0 | lock00 inc0")]
def shm_user(tier): return mtx_user(tier) + [Q(t) for t in ("slock00 get0 | slock00 get0 | lock00 inc0", "slock00 mvc0 get1 | try00 inc0 | stry00 get0", "slock00 slock11 mva0 | try00 inc0 rel0 try10 inc0", "slock00 slock11 swp srel0 get1 | try00 inc0 | try10 inc0")]

def rec_bodies(maxlen, shared, muts): # both guards of one thread may guard the same mutex
    return [b for b in guard_bodies(maxlen, shared, muts, True) if canon(b) and any(b.count(k + "00") and b.count(k + "01") for k in ("lock", "slock", "try", "stry"))]
def mtx_rec(tier): return [Q(" ".join(b) + " | " + o) for b in rec_bodies(4 if tier == "quick" else 5, False, (0,)) for o in ("lock00 inc0 rel0", "try00 inc0")]
def shm_rec(tier): return [Q(" ".join(b) + " | " + o) for b in rec_bodies(3 if tier == "quick" else 4, True, (0,)) + [b for b in rec_bodies(4, True, (0,)) if any(x.startswith(("mva", "swp")) for x in b)] for o in ("lock00 inc0 rel0", "try00 inc0", "slock00 get0")]

def lim(tier):
    def G(ts, **par): return "_".join(["%s%d" % kv for kv in par.items()] + sum((["T"] + list(t) for t in ts), []))
    def ok(t): # never free more than was allocated before
        n = 0
        for o in t:
            if o[0] in "ar": n += 1
            elif o == "d":
                n -= 1
                if n < 0: return False
        return any(o[0] in "ar" for o in t)
    b3 = [t for t in bodies(["a1", "a2", "d", "r3"], 3) if ok(t)]
    b2 = [t for t in bodies(["a1", "a2", "d"], 2) if ok(t)]
    b2c = [t for t in bodies(["a1", "a3", "r3", "d", "c"], 2) if ok(t)]
    r = [G(ts, lim=3) for ts in itertools.combinations_with_replacement(b3, 2)]
    r += [G(ts, lim=3) for ts in itertools.combinations_with_replacement(b2, 3)]
    r += [G(ts, lim=2, weak=1) for ts in itertools.combinations_with_replacement(b2, 2)]
    r += [G(ts, lim=3, stale=1) for ts in itertools.combinations_with_replacement(b2, 2)]
    r += [G(ts, lim=3, fault=1) for ts in itertools.combinations_with_replacement(b2, 2)] + [G(ts, lim=3, fault=1) for ts in itertools.combinations_with_replacement([("a2",), ("a1", "d"), ("a3", "d")], 3)]
    r += [G(ts, lim=3) for ts in itertools.combinations_with_replacement(b2c, 2)]
    if tier == "thorough":
        r += [G(ts, lim=3, weak=1, stale=1) for ts in itertools.combinations_with_replacement(b3, 2)]
        r += [G(ts, lim=4, fault=2) for ts in itertools.combinations_with_replacement(b3, 2)]
        r += [G(ts, lim=3) for ts in itertools.combinations_with_replacement([t for t in bodies(["a1", "a2", "d"], 3) if ok(t)], 3)]
        r += [G(ts, lim=3) for ts in itertools.combinations_with_replacement(b2, 4)]
    return list(dict.fromkeys(r))

def pipes(tier):
    """the largest programs run with a preemption bound in the quick tier and without one in the thorough tier"""
    r, big = [], tier == "thorough"
    pb = "" if big else "_pb2"
    for c in (1, 2) if not big else (1, 2, 3):
        r += ["capA%d_%s" % (c, t) for t in ("prodA2_colA", "prodA2_icolA", "tprodA2_icolA", "prodA3_icolA", "prodA1_prodA1_colA", "prodA2_prodA1_icolA", "prodA2_colA_icolA", "tprodA2_tprodA1_colA", "prodA3_ncolA1", "prodA2_prodA2_ncolA1", "prodA2_ncolA1_colA",
              "reqA1_srvA", "reqA2_srvA", "reqA1_reqA1_srvA", "reqA1_srvA_srvA", "prodA2_sumA_read2", "prodA1_sumA_sumA", "prodA2_colA_spur1", "prodA1_prodA1_icolA_spur1", "prodA2_icolA_stale1",
              "prodA2_bridgeA_colX", "prodA2_bridgeA_icolX", "prodA1_prodA1_bridgeA_colX" + pb)]
        for d in (1, 2):
            r += ["capA%d_capB%d_%s" % (c, d, t) for t in ("prodA2_mapAB_colB", "prodA2_imapAB_icolB", "prodA3_imapAB_colB" + pb, "prodA2_mapAB_ncolB1", "prodA2_failAB_colB_fault1", "prodA1_mapAB_mapAB_colB" + pb, "prodA2_imapAB_icolB_spur1" + pb)]
    r += ["prodX2_colX", "prodX3_icolX", "prodX2_colX_colX", "prodX2_icolX_colX", "prodX1_prodX1_colX", "prodX2_prodX1_icolX", "prodX2_colX_spur1", "prodX2_icolX_stale1", "prodX3_colX_icolX"]
    r += [t + pb for t in ("capA1_prodA1_prodA1_colA_colA", "capA1_prodA1_prodA1_prodA1_icolA", "capA2_prodA1_prodA1_ncolA1_icolA")]
    if big:
        pb = "_pb3"
        r += [t + pb for t in ("capA1_capB1_prodA1_prodA1_mapAB_colB", "capA1_capB1_prodA2_mapAB_imapAB_colB", "capA1_capB1_prodA1_failAB_failAB_colB_fault1", "capA1_capB1_prodA2_failAB_colB_fault2", "capA1_capB1_prodA1_mapAB_colB_colB", "capA2_capB1_prodA4_imapAB_icolB", "capA1_reqA1_reqA1_srvA_srvA", "capA1_reqA2_reqA1_srvA", "capA1_prodA2_prodA1_colA_icolA", "capA1_prodA2_prodA2_icolA",
              "prodX2_prodX1_colX_icolX", "prodX4_icolX", "capA1_prodA2_sumA_sumA_read2", "capA1_prodA1_sumA_read2_read2", "capA1_prodA3_bridgeA_icolX", "capA1_prodA2_bridgeA_colX_colX", "capA1_prodA2_prodA1_ncolA1_colA", "capA1_prodA1_prodA1_prodA1_colA_colA")]
    return r
