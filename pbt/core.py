"""What a property module is made of."""


class Ctx:
    """Per-case bookkeeping: a check marks the case non-trivial and labels it."""

    def __init__(self, sub):
        self.sub = sub
        self.nontrivial = False
        self.labels = []

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)


class Sub:
    """A generated check: a strategy of plain-data cases and a function that
    builds the case with gdspy and asserts the oracle."""

    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20


def ensure(cond, *msg):
    if not cond:
        raise AssertionError(" ".join(str(m) for m in msg))


# recorded cases and replays are judged without allowance
STRICT = False


class Rare:
    """Allowance for failures at isolated degenerate inputs: the first two in
    a worker, and then one per 1000 cases, are not reported, provided that all
    inputs right next to them pass.  Anything systematic exceeds it."""

    def __init__(self, first=2, per=1000):
        self.first, self.per = first, per
        self.cases = 0
        self.seen = set()

    def __call__(self, run, case, ctx, neighbours):
        self.cases += 1
        try:
            return run(case, ctx)
        except AssertionError:
            if STRICT:
                raise
            for other in neighbours(case):
                run(other, Ctx(ctx.sub))
            self.seen.add(repr(case))
            if len(self.seen) > self.first + self.cases / self.per:
                raise
            ctx.label("isolated degenerate failure")
