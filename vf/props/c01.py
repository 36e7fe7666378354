"""C01 / C02: scale conversions."""
from fractions import Fraction as F
from ..harness import theorem, Num, nt, t, asnum
from ..snp import R

CV = "spafe.utils.converters:"
MEL = ["Oshaghnessy", "Lindsay"]
BARK = ["Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller"]
ERB = ["Glasberg"]
PAIRS = [("mel", a) for a in MEL] + [("bark", a) for a in BARK] + [("erb", a) for a in ERB]
np_ = lambda n: R["numpy." + n]


def spec_fwd(scale, a, f):
    """published closed forms, Hz -> scale"""
    log10, asinh, atan = np_("log10"), np_("arcsinh"), np_("arctan")
    if scale == "mel":
        return {"Oshaghnessy": lambda: 2595 * log10(1 + f / 700), "Lindsay": lambda: 2410 * log10(1 + f / 625)}[a]()
    if scale == "erb":
        return F(1000) * np_("log")(asnum(10)) / F("107.939") * log10(1 + f * F("0.00437"))
    if a == "Traunmueller":
        z = F("26.81") * f / (1960 + f) - F("0.53")
        lo = Num(t.ite(t.lt(z.t, t.num(2)), t.sub(t.num(2), z.t), t.ZERO), z.ok, "f", True)
        hi = Num(t.ite(t.lt(t.num(F("20.1")), z.t), t.sub(z.t, t.num(F("20.1"))), t.ZERO), z.ok, "f", True)
        return z + F("0.15") * lo + F("0.22") * hi
    return {"Wang": lambda: 6 * asinh(f / 600), "Tjomov": lambda: F("6.7") * asinh((f + 20) / 600), "Schroeder": lambda: 7 * asinh(f / 650),
            "Terhardt": lambda: F("13.3") * atan(F("0.75") * f / 1000), "Zwicker": lambda: F("8.7") + F("14.2") * log10(f / 1000)}[a]()


def spec_bwd(scale, a, b):
    sinh, tan = np_("sinh"), np_("tan")
    ten = lambda e: Num(t.power(t.num(10), nt(e)), e.ok, "f", True)
    if scale == "mel":
        return {"Oshaghnessy": lambda: 700 * (ten(b / 2595) - 1), "Lindsay": lambda: 625 * (ten(b / 2410) - 1)}[a]()
    if scale == "erb":
        A = F(1000) * np_("log")(asnum(10)) / F("107.939")
        return (ten(b / A) - 1) / F("0.00437")
    if a == "Traunmueller":
        z = t.ite(t.lt(b.t, t.num(2)), t.div(t.sub(b.t, t.num(F("0.3"))), t.num(F("0.85"))),
                  t.ite(t.lt(t.num(F("20.1")), b.t), t.div(t.add(b.t, t.num(F("4.422"))), t.num(F("1.22"))), b.t))
        z = Num(z, b.ok, "f", True)
        return 1960 * ((z + F("0.53")) / (F("26.28") - z))
    return {"Wang": lambda: 600 * sinh(b / 6), "Tjomov": lambda: 600 * sinh(b / F("6.7")) - 20, "Schroeder": lambda: 650 * sinh(b / 7),
            "Terhardt": lambda: 1000 * tan(b / F("13.3")) / F("0.75"), "Zwicker": lambda: ten((b - F("8.7")) / F("14.2") + 3)}[a]()


def freq(h, name, scale, a, np=True):
    f = h.real(name, lo=None if a == "Zwicker" else 0, pos=a == "Zwicker")
    return Num(f.t, f.ok, "f", np)


CASES = [{"scale": s, "approach": a} for s, a in PAIRS]


@theorem("C01", cases=CASES)
def inverse(h, scale, approach):
    "scale2hz(hz2scale(f)) == f and, on the image of the forward map, hz2scale(scale2hz(hz2scale(f))) == hz2scale(f)"
    f = freq(h, "f", scale, approach)
    v = h.value(CV + "hz2" + scale, f, approach)
    h.prove("forward value defined", v.ok)
    back = h.value(CV + scale + "2hz", v, approach)
    h.prove("backward value defined", asnum(back).ok)
    h.prove("back(forward(f)) == f", t.eq(nt(back), f.t))
    again = h.value(CV + "hz2" + scale, back, approach)
    h.prove("forward(back(v)) == v", t.eq(nt(again), nt(v)))


@theorem("C02", cases=CASES)
def closed_form(h, scale, approach):
    "each conversion equals its published closed form"
    f = freq(h, "f", scale, approach)
    v = h.value(CV + "hz2" + scale, f, approach)
    h.prove("hz2%s closed form" % scale, t.eq(nt(v), nt(spec_fwd(scale, approach, f))))
    b = h.real("b")
    b = Num(b.t, b.ok, "f", True)
    if approach == "Traunmueller":
        h.assume(t.lt(b.t, t.num(27)))
    w = h.value(CV + scale + "2hz", b, approach)
    h.prove("%s2hz closed form" % scale, t.eq(nt(w), nt(spec_bwd(scale, approach, b))))


@theorem("C02", cases=CASES)
def increasing(h, scale, approach):
    "f1 < f2 implies scale(f1) < scale(f2)"
    f1, f2 = freq(h, "f1", scale, approach), freq(h, "f2", scale, approach)
    h.assume(t.lt(f1.t, f2.t))
    v1 = h.value(CV + "hz2" + scale, f1, approach)
    v2 = h.value(CV + "hz2" + scale, f2, approach)
    h.prove("increasing", t.lt(nt(v1), nt(v2)))


@theorem("C02", cases=[{"fn": "hz2mel"}, {"fn": "mel2hz"}])
def unknown_mel(h, fn):
    "an approach other than the two known names is rejected with KeyError"
    f = freq(h, "f", "mel", "")
    s = h.string("approach")
    o = h.call(CV + fn, f, s)
    from ..values import str_term
    h.raises_iff(fn, o, "KeyError", t.and_(*[t.not_(t.eq(s.t, str_term(m))) for m in MEL]))
