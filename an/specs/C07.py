"""C07: linear operations."""
from .common import *

EXPLAIN = ("every by-value/by-reference spelling of +, -, unary -, *scalar and /scalar is resolved to its impl, its "
           "coefficients are derived from the MIR for every storage and compared coefficientwise")
RULE = "(a+b)[k]=a[k]+b[k]; (a-b)[k]=a[k]-b[k]; (-a)[k]=-a[k]; (a*s)[k]=a[k]*s; (a/s)[k]=a[k]*s^-1"
FLOOR = 50


def run(cx):
    a_, b_ = (lambda k: rd("a", k)), (lambda k: rd("b", k))
    x = rd("x")
    for kind, lbl, new, ty in each(cx):
        for tr, name, want in (("Add", "add", lambda k: radd(a_(k), b_(k))),
                               ("Sub", "sub", lambda k: rsub(a_(k), b_(k)))):
            for sp, lt_, rt in spellings(ty()):
                with cx.clause("a%sb %s, %s" % ("+" if name == "add" else "-", sp, lbl)):
                    s = new()
                    alg = algof(s, kind)
                    tgt = s.method(name, lt_, "std::ops::" + tr, [rt])
                    a, b = operand(s, s.mv("a", ty(), alg["dim"]), lt_), operand(s, s.mv("b", ty(), alg["dim"]), rt)
                    r = s.call(tgt, [a, b])
                    k = kvar(alg)
                    cx.equal("(a%sb)[k]" % ("+" if name == "add" else "-"), s.content(r, k), want(k), [k],
                             models=models_of(cx, alg), where=where(tgt), nc=True)
                    cx.no_panics(s, models=models_of(cx, alg))
        for sp, lt_ in (("value", ty()), ("ref", ("ref", ty(), False))):
            with cx.clause("-a %s, %s" % (sp, lbl)):
                s = new()
                alg = algof(s, kind)
                tgt = s.method("neg", lt_, "std::ops::Neg")
                r = s.call(tgt, [operand(s, s.mv("a", ty(), alg["dim"]), lt_)])
                k = kvar(alg)
                cx.equal("(-a)[k]", s.content(r, k), rneg(a_(k)), [k], models=models_of(cx, alg), where=where(tgt),
                         nc=True)
                cx.no_panics(s, models=models_of(cx, alg))
        for tr, name, want in (("Mul", "mul", lambda k: rmul(a_(k), x)), ("Div", "div", lambda k: rmul(a_(k), rinv(x)))):
            for sp, lt_, rt in spellings(ty(), TS):
                with cx.clause("a%sscalar %s, %s" % ("*" if name == "mul" else "/", sp, lbl)):
                    s = new()
                    alg = algof(s, kind)
                    tgt = s.method(name, lt_, "std::ops::" + tr, [rt])
                    a = operand(s, s.mv("a", ty(), alg["dim"]), lt_)
                    r = s.call(tgt, [a, operand(s, x, rt)])
                    k = kvar(alg)
                    cx.equal("(a%sx)[k]" % ("*" if name == "mul" else "/"), s.content(r, k), want(k), [k],
                             models=models_of(cx, alg), where=where(tgt), nc=True,
                             cond=bnot(isz(x)) if name == "div" else TRUE)
                    cx.no_panics(s, models=models_of(cx, alg))
