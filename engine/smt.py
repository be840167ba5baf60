"""Second back end: the same obligation handed to cvc5 as SMT-LIB."""
import os
import subprocess
import tempfile
import time
import z3


def cvc5_unsat(facts, goal, timeout_ms):
    from . import prove
    t0 = time.time()
    try:
        tr = prove.Tr()
        s = z3.Solver()
        for f in facts:
            s.add(tr.tr(f))
        s.add(z3.Not(tr.tr(goal)))
        for x in tr.side:
            s.add(x)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            name = f.name
        try:
            out = subprocess.run(['cvc5', '--tlimit=%d' % (2 * timeout_ms), name], capture_output=True, text=True,
                                 timeout=timeout_ms / 500 + 5).stdout
        finally:
            os.unlink(name)
        return out.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        prove.STATS['cvc5_s'] += time.time() - t0
        prove.STATS['cvc5_calls'] += 1
