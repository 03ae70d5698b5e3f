"""Entry points into the abstract interpreter."""
from ai import Interp, Rule, Frame, St, RV, AV, E0
from prog import AnalysisError, fn_nodes, visit
import models

SELF = (("obj", "self"),)


def analyse(prog, rule, fn, cls=None, setup=None, args=None, budget=1500000, facts=(), interp=Interp):
    """Analyse fn from an arbitrary initial state (optionally refined by setup(I, st)).  Returns (Interp, outs)."""
    I = interp(prog, rule, budget)
    rule.I = I
    st = St()
    st.facts = frozenset(facts)
    I.fr = Frame(0, None, fn.T, None, None, None, fn.tu, "root")
    this = None
    if fn.cls and not fn.d.get("static"):
        this = SELF
        st.store[SELF + ("@cls",)] = I.cst(cls or fn.cls)
    if setup:
        setup(I, st)
    av = []
    for i, q in enumerate(fn.d["ps"]):
        l = (("p", q["n"] or str(i)),)
        if args and q["n"] in args:
            a = args[q["n"]]
            av.append(a(I, st) if callable(a) else a)
            continue
        t = fn.T[q["t"]] if q["t"] >= 0 else {}
        if t.get("ptr") or t.get("s", "").startswith(("std::shared_ptr", "std::unique_ptr", "const std::shared_ptr", "const std::unique_ptr")):
            if l not in st.store:
                st.store[l] = AV(I.T.mk("r", ("p", q["n"] or str(i)), ()), E0, ((("p*", q["n"] or str(i)),),), ())
        av.append(RV(I.rd(st, l), l))
    outs = I.invoke(fn, st, this, av, None)
    return I, outs
