"""C48: learning-rate schedules warm up and decay as documented."""
import math

from checks import stublib

stublib.install()
import torch.optim.lr_scheduler  # noqa: E402


class LambdaLR:
    def __init__(self, optimizer, fn, last_epoch=-1, *a, **k):
        self.optimizer, self.fn, self.last_epoch = optimizer, fn, last_epoch


torch.optim.lr_scheduler.LambdaLR = LambdaLR

from deepgnn.pytorch.common import optimization as opt  # noqa: E402

from symx.core import And, Implies, Unsupported  # noqa: E402
from symx.env import Env  # noqa: E402
from symx.runner import Harness  # noqa: E402

BOUNDS = "any step, warm-up and number of training steps within the listed ranges (the warm-up may be a fraction), any step up to five times the number of training steps for 1000 and 20000 of these with a warm-up of 0, 100 or 1000, up to the listed number of cycles, any final rate below the first one, powers one to three"
OUTSIDE = "longer trainings, other powers, the values of the cosine itself (any value in [-1, 1] is assumed where it is called), rounding of floats"
ASSUMPTIONS = ["torch's LambdaLR is a stand-in that keeps the function it is given", "math.cos returns 1 at 0, -1 at pi and any value between them elsewhere"]

EPS = 1e-9
COS = math.cos


class Optimizer:
    def __init__(self, rate):
        self.defaults = {"lr": rate}
        self.param_groups = [{"lr": rate}]


def near(a, b):
    return And(a - b <= EPS, b - a <= EPS)


def setup(ctx, b):
    Env(ctx, ("num",), ["deepgnn.pytorch.common.optimization"])
    if b.get("long"):
        total = ctx.choice("training", [1000, 20000])
        warm = ctx.choice("warmup", [0, 100, 1000])
        return total, warm, ctx.int("step", 0, 5 * total), ctx.int("last", -1, 5 * total)
    total = ctx.pick("training", 0, b["training"])
    warm = ctx.pick("warmup", 0, total)
    if b.get("fractions"):
        warm = ctx.choice("fraction", [0.25, 0.5]) + warm
    return total, warm, ctx.int("step", 0, total + 2), ctx.int("last", -1, 5)


def rising(ctx, f, step, warm):
    """Before the end of the warm-up; whether it applies."""
    if step < warm:
        ctx.check(near(f(step) * max(1, warm), step + 0.0), "the rate rises in equal steps to the first rate")
        ctx.cover("warm-up")
        return True
    return False


def constant(ctx, b):
    total, warm, step, last = setup(ctx, b)
    o = Optimizer(1.0)
    s = opt.get_constant_schedule(o, last)
    ctx.check(s.fn(step) == 1, "a constant rate stays")
    w = opt.get_constant_schedule_with_warmup(o, warm, last)
    for x in (s, w):
        ctx.check(x.optimizer is o, "the optimizer is scheduled")
        ctx.check_eq(x.last_epoch, last, "a resumed schedule starts where it stopped")
    if not rising(ctx, w.fn, step, warm):
        ctx.check(w.fn(step) == 1, "the rate stays after the warm-up")


def linear(ctx, b):
    total, warm, step, last = setup(ctx, b)
    o = Optimizer(1.0)
    s = opt.get_linear_schedule_with_warmup(o, warm, total, last)
    ctx.check(s.optimizer is o, "the optimizer is scheduled")
    ctx.check_eq(s.last_epoch, last, "a resumed schedule starts where it stopped")
    r = s.fn(step)
    ctx.check(And(r >= 0, r <= 1), "the factor is between zero and one")
    if rising(ctx, s.fn, step, warm):
        return
    if step >= total:
        ctx.check(near(r + 0.0, 0.0), "the rate is zero after the last step")
        return
    if total - warm >= 1:
        ctx.check(near(r * (total - warm), total - step + 0.0), "the rate falls in equal steps to zero")
        ctx.cover("falling")


def polynomial(ctx, b):
    total, warm, step, last = setup(ctx, b)
    first = ctx.choice("first", [1.0, 0.5])
    end = ctx.choice("end", [0.0, 0.125, 0.25])
    power = ctx.pick("power", 1, b["power"])
    s = opt.get_polynomial_decay_schedule_with_warmup(Optimizer(first), warm, total, end, power, last)
    ctx.check_eq(s.last_epoch, last, "a resumed schedule starts where it stopped")
    r = s.fn(step)
    ctx.check(And(r >= 0, r <= 1), "the factor is between zero and one")
    if rising(ctx, s.fn, step, warm):
        return
    if step > total:
        ctx.check(near(r * first, end), "the rate stays at the final one")
        return
    if total > warm:
        if step == total:
            ctx.check(near(r * first, end), "the last step has the final rate")
        left = (total - step) / (total - warm)
        want = end + (first - end) * left**power
        ctx.check(near(r * first, want), "the rate falls with the power of the remaining share")
        ctx.cover("falling")


class Cosine:
    """Any cosine: right at multiples of half a turn, any value between elsewhere."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []
        if ctx.symbolic:
            ctx.patch(math, "cos", self)

    def __call__(self, x):
        c = self.ctx.real(self.ctx.fresh("cos"), -1, 1)
        for k in range(0, 8):
            self.ctx.assume(Implies(near(x + 0.0, math.pi * k), c == (1 if k % 2 == 0 else -1)))
        self.calls.append((x, c))
        return c


def cosine(ctx, b):
    total, warm, step, last = setup(ctx, b)
    c = Cosine(ctx)
    hard = b["hard"]
    cycles = ctx.pick("cycles", 1, b["cycles"])
    if hard:
        s = opt.get_cosine_with_hard_restarts_schedule_with_warmup(Optimizer(1.0), warm, total, cycles, last)
    else:
        cycles = cycles / 2
        s = opt.get_cosine_schedule_with_warmup(Optimizer(1.0), warm, total, cycles, last)
    ctx.check_eq(s.last_epoch, last, "a resumed schedule starts where it stopped")
    r = s.fn(step)
    ctx.check(And(r >= 0, r <= 1), "the factor is between zero and one")
    if rising(ctx, s.fn, step, warm):
        return
    if step >= total and total > warm:
        if hard:
            ctx.check(near(r + 0.0, 0.0), "the rate is zero after the last step")
            return
    if total <= warm or step > total:
        return
    done = (step - warm) / (total - warm)
    if hard:
        k = cycles * done
        whole = next(i for i in range(cycles + 1) if k < i + 1)
        angle = math.pi * (k - whole)
    else:
        angle = 2 * math.pi * cycles * done
    if step == warm:
        ctx.check(near(r + 0.0, 1.0), "the rate is the first one after the warm-up")
    if not ctx.symbolic:
        ctx.check(abs(r - max(0, 0.5 * (1 + COS(angle)))) < 1e-6, "the rate follows the cosine of the step in its cycle", lambda: f"{r} at angle {angle}")
    else:
        if not c.calls:
            raise Unsupported("no call of math.cos")
        ctx.check(near(c.calls[-1][0] + 0.0, angle), "the rate follows the cosine of the step in its cycle")
        ctx.check(near(r + 0.0, 0.5 * (1 + c.calls[-1][1])), "the rate follows the cosine of the step in its cycle")
    ctx.cover("falling")


HARNESSES = [
    Harness("constant", constant, {"training": 5}, {"training": 9}, covers=["warm-up"]),
    Harness("linear", linear, {"training": 5}, {"training": 9}, covers=["warm-up", "falling"]),
    Harness("linear_fraction", linear, {"training": 4, "fractions": True}, {"training": 8, "fractions": True}, covers=["warm-up", "falling"]),
    Harness("long_constant", constant, {"long": True}, {"long": True}, covers=["warm-up"]),
    Harness("long_linear", linear, {"long": True}, {"long": True}, covers=["warm-up", "falling"]),
    Harness("long_polynomial", polynomial, {"long": True, "power": 1}, {"long": True, "power": 2}, covers=["warm-up", "falling"]),
    Harness("long_cosine", cosine, {"long": True, "hard": False, "cycles": 2}, {"long": True, "hard": False, "cycles": 4}, covers=["warm-up", "falling"]),
    Harness("polynomial", polynomial, {"training": 4, "power": 2}, {"training": 6, "power": 3}, covers=["warm-up", "falling"]),
    Harness("cosine", cosine, {"training": 4, "hard": False, "cycles": 2}, {"training": 6, "hard": False, "cycles": 4}, covers=["warm-up", "falling"]),
    Harness("restarts", cosine, {"training": 4, "hard": True, "cycles": 2}, {"training": 6, "hard": True, "cycles": 4}, covers=["warm-up", "falling"]),
]
