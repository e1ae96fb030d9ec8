"""The crop computation is called with sizes of every kind; its results are judged with exact fractions."""
import random
from decimal import Decimal
from fractions import Fraction
from common import CaseResult

PROPERTY = "C23"
TECHNIQUE = "runtime monitoring: online assertion on every result of cover_fit (direct calls over exhaustive small and random large inputs, and the calls made while exporting images) against exact rational arithmetic"
RULE = ("all image and target sizes up to a bound with all small minimum crops and some percentages, random sizes up to 10**6 with near-equal aspect ratios and extreme shapes, percentages as floats, ints and decimals, and infeasible settings of every kind. "
        "Distinct by (which side is cropped, which minimum crops, percentage kind, degenerate or not, feasible or which reason not)")
LEVEL = "exploration"

PCT = [0, 1, 0.5, 0.25, 0.1, 0.9, 1 / 3, Decimal("0.5"), Decimal("0.333"), 0.0, 1.0, 1e-9, 0.999999999]


def cases(tier, rng):
    res = [{"kind": "small", "sw": w, "max": 7 if tier == "quick" else 10, "seed": rng.randrange(1 << 60)} for w in range(1, 8 if tier == "quick" else 11)]
    res += [{"kind": "random", "n": 60000 if tier == "quick" else 150000, "seed": rng.randrange(1 << 60)} for _ in range(8 if tier == "quick" else 32)]
    res += [{"kind": "infeasible", "n": 4000, "seed": rng.randrange(1 << 60)} for _ in range(2 if tier == "quick" else 8)]
    return res


def judge(R, cover_fit, sw, sh, dw, dh, pl=0.5, pt=0.5, t=0, l=0, b=0, r=0, positional=False):
    args = dict(source_width=sw, source_height=sh, dest_width=dw, dest_height=dh, crop_left_percentage=pl, crop_top_percentage=pt, pre_top_crop=t, pre_left_crop=l, pre_bottom_crop=b, pre_right_crop=r)
    why = None
    if min(sw, sh, dw, dh) <= 0:
        why = "size"
    elif min(t, l, b, r) < 0:
        why = "negative crop"
    elif not (0 <= pl <= 1 and 0 <= pt <= 1):
        why = "percentage"
    elif sw - l - r <= 0 or sh - t - b <= 0:
        why = "nothing left"
    try:
        res = cover_fit(**args)
    except ValueError:
        R.expect(why is not None, "feasible-rejected", f"{args}")
        R.key("rejected", why)
        R.count("rejected")
        return
    if why is not None:
        R.expect(False, "infeasible-accepted", f"{why}: {args} gave {res}", args=repr(args))
        return
    R.evals += 1
    R.count("crops")
    bad = check(res, sw, sh, dw, dh, pl, pt, t, l, b, r)
    if bad:
        R.fail(bad[0], f"{bad[1]}: {args} gave {res}", args=repr(args))
    W, H = sw - l - r, sh - t - b
    c = W * dh - H * dw
    R.key(("w" if c > 0 else "h" if c < 0 else "="), bool(t), bool(l), bool(b), bool(r), type(pl).__name__, pl in (0, 1), res[2] == 1, res[3] == 1, min(W, H) == 1)


def check(res, sw, sh, dw, dh, pl, pt, t, l, b, r):
    x, y, w, h = res
    if not all(isinstance(v, int) for v in res):
        return "not-integers", "not whole pixels"
    if w < 1 or h < 1:
        return "empty", "empty crop"
    if x < 0 or y < 0 or x + w > sw or y + h > sh:
        return "outside", "outside of the image"
    if x < l or y < t or x + w > sw - r or y + h > sh - b:
        return "minimum-crop", "minimum crops are not respected"
    W, H = sw - l - r, sh - t - b
    c = W * dh - H * dw          # > 0: wider than the target
    if c >= 0 and h != H or c <= 0 and w != W:
        return "not-largest", "not the largest such region"
    ew, eh = Fraction(H * dw, dh), Fraction(W * dh, dw)
    if c > 0 and not (abs(w - ew) < 1 or w == 1 and ew < 1) or c < 0 and not (abs(h - eh) < 1 or h == 1 and eh < 1):
        return "aspect", f"aspect ratio is off by a pixel or more (exact {float(ew):.3f} x {float(eh):.3f})"
    if abs(x - l - Fraction(pl) * (W - w)) > 1 or abs(y - t - Fraction(pt) * (H - h)) > 1:
        return "position", "not positioned by the percentages"
    return None


def run_case(case, tmp):
    from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
    R = CaseResult()
    rng = random.Random(case["seed"])
    if case["kind"] == "small":
        m = case["max"]
        sw = case["sw"]
        for sh in range(1, m + 1):
            for dw in range(1, m + 1):
                for dh in range(1, m + 1):
                    judge(R, cover_fit, sw, sh, dw, dh, rng.choice(PCT), rng.choice(PCT))
                    for _ in range(3):
                        judge(R, cover_fit, sw, sh, dw, dh, rng.choice(PCT), rng.choice(PCT), *[rng.choice([0, 0, 1, 2]) for _ in range(4)])
        R.sample({"sw": sw, "sizes up to": m})
    elif case["kind"] == "random":
        size = lambda: rng.choice([rng.randrange(1, 12), rng.randrange(1, 200), rng.randrange(1, 6000), rng.randrange(1, 10**6)])
        for i in range(case["n"]):
            sw, sh = size(), size()
            if rng.random() < .3:
                dw, dh = max(1, sw // rng.randrange(1, 5) + rng.randrange(-1, 2)), max(1, sh // rng.randrange(1, 5) + rng.randrange(-1, 2))
            elif rng.random() < .3:
                k = rng.randrange(1, 50)
                dw, dh = sw * k, sh * k + rng.choice([0, 0, 1, -1])
                dh = max(dh, 1)
            else:
                dw, dh = size(), size()
            cr = [0] * 4
            for j in range(4):
                if rng.random() < .4:
                    cr[j] = rng.randrange(0, max(1, (sh if j in (0, 2) else sw) // 2 + 1))
            pct = lambda: rng.choice([rng.random(), rng.choice(PCT), round(rng.random(), 2), Decimal(rng.randrange(101)) / 100])
            judge(R, cover_fit, sw, sh, dw, dh, pct(), pct(), *cr)
            if i == 0:
                R.sample({"source": [sw, sh], "target": [dw, dh], "crops": cr})
    else:
        for _ in range(case["n"]):
            a = dict(sw=rng.randrange(1, 50), sh=rng.randrange(1, 50), dw=rng.randrange(1, 50), dh=rng.randrange(1, 50), pl=rng.random(), pt=rng.random(), t=0, l=0, b=0, r=0)
            k = rng.choice(["neg", "pct", "zero", "left", "top", "exact"])
            if k == "neg":
                a[rng.choice("tlbr")] = -rng.randrange(1, 5)
            elif k == "pct":
                a[rng.choice(["pl", "pt"])] = rng.choice([-.1, 1.1, -1, 2, 50, 1.0000001, -1e-9, Decimal("1.5")])
            elif k == "zero":
                a[rng.choice(["sw", "sh", "dw", "dh"])] = rng.choice([0, -1, -10])
            elif k == "left":
                a["l"] = rng.randrange(0, a["sw"] + 1)
                a["r"] = a["sw"] - a["l"] + rng.randrange(0, 3)
            elif k == "top":
                a["t"] = rng.randrange(0, a["sh"] + 1)
                a["b"] = a["sh"] - a["t"] + rng.randrange(0, 3)
            else:
                a["t"], a["l"] = a["sh"] - 1, a["sw"] - 1
            judge(R, cover_fit, **a)
        R.sample({"kind": "infeasible"})
    return R


def finalize(results, tier, counters):
    need = {"crops": 80000, "rejected": 3000}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
