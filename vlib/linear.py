"""Is a concurrent history explained by some sequential order of its calls?  (Wing and Gong's search, with memory.)"""


class Call:
    __slots__ = ("calls", "n", "op", "who", "t0", "t1", "result")

    def end(self, result=None):
        self.result = result
        self.t1 = self.calls.tick()


class Calls:
    def __init__(self):
        self.seq, self.all = 0, []

    def tick(self):
        self.seq += 1
        return self.seq

    def begin(self, op, who):
        c = Call()
        c.calls, c.op, c.who, c.t1, c.result = self, op, who, None, None
        c.n = len(self.all)
        self.all.append(c)
        c.t0 = self.tick()
        return c

    def overlap(self):
        return any(a.who != b.who and a.t0 < b.t1 and b.t0 < a.t1 for a in self.all for b in self.all)

    def __str__(self):
        return ", ".join("%d:%s@%s[%d..%d]%s" % (c.n, "/".join(map(str, c.op)), c.who, c.t0, c.t1, "" if c.result is None else "=%r" % (c.result,)) for c in self.all)


def explain(calls, state, step, accept):
    """True when some order that respects real time takes `state` to an accepted one.  step(state, op, n, result) gives the next state or None."""
    calls = sorted(calls, key=lambda c: c.t0)
    seen = set()
    stack = [(0, state)]
    full = (1 << len(calls)) - 1
    while stack:
        done, state = stack.pop()
        if (done, state) in seen:
            continue
        seen.add((done, state))
        if done == full:
            if accept(state):
                return True
            continue
        rest = [i for i in range(len(calls)) if not done >> i & 1]
        first_end = min(calls[i].t1 for i in rest)
        for i in rest:
            if calls[i].t0 > first_end:
                break
            nxt = step(state, calls[i].op, calls[i].n, calls[i].result)
            if nxt is not None:
                stack.append((done | 1 << i, nxt))
    return False
