"""SMT obligations (integer arithmetic lemmas, VCs of vp.intvc) raced over a portfolio of solvers."""
import os, re, subprocess, tempfile, time, signal
from .core import *

SOLVERS = {
    "cvc5": ["cvc5", "--lang=smt2", "-q"],
    "cvc5-nl": ["cvc5", "--lang=smt2", "-q", "--nl-ext-tplanes"],
    "z3": ["z3", "-smt2"],
    "z3-new": ["z3-new", "-smt2"],
}


def solve(ctx, text, timeout=120, solvers=("z3-new", "cvc5"), name="vc"):
    """first definite answer wins: returns (sat|unsat|unknown, solver, secs, output)"""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False, dir=ctx.work)
    f.write(text)
    f.close()
    t = time.time()
    procs = []
    deadline = t + min(timeout, ctx.left())
    for s in solvers:
        out = open(f.name + "." + s + ".out", "w+")
        procs.append((s, subprocess.Popen(SOLVERS[s] + [f.name], stdout=out, stderr=subprocess.STDOUT, start_new_session=True), out))
    res = ("unknown", ",".join(solvers), None, "")
    pend = list(procs)
    try:
        while pend and time.time() < deadline:
            for it in list(pend):
                s, p, out = it
                if p.poll() is not None:
                    pend.remove(it)
                    out.seek(0)
                    o = out.read()
                    m = re.search(r"^(sat|unsat)\b", o, re.M)
                    if m:
                        return m.group(1), s, time.time() - t, o
                    res = ("unknown", s, None, o[:500])
            time.sleep(0.01)
    finally:
        for s, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            out.close()
    return "unknown", ",".join(solvers), time.time() - t, res[3] or "timeout"


def prove(ctx, name, text, func, timeout=120, solvers=("z3-new", "cvc5"), bounded=None):
    """text: SMT-LIB asserting the negation of the obligation; unsat = discharged."""
    with ctx.sem:
        r, s, secs, o = solve(ctx, text, timeout, solvers, name)
    with ctx.lock:
        ctx.cmds.append(f"{s} <vc>.smt2")
    st = {"unsat": "proved", "sat": "failed"}.get(r, "unknown")
    ob = Ob(name, st, s, secs, o[-3000:] if st != "proved" else "", func, bounded)
    ctx.add(ob)
    return ob


def lemma(ctx, name, decls, hyps, goal, func="lemma", timeout=60, logic="ALL"):
    t = f"(set-logic {logic})\n(set-option :produce-models true)\n" + "\n".join(f"(declare-const {v} Int)" for v in decls.split()) + "\n"
    t += "\n".join(f"(assert {h})" for h in hyps) + f"\n(assert (not {goal}))\n(check-sat)\n(get-model)\n"
    return prove(ctx, "lemma:" + name, t, func, timeout)
