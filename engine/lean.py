"""Static lemmas, checked by Lean (Mathlib): the consequence drawn from the obligations proved on the code.

A contract module lists them as LEMMAS = {'Sampling': [names]}; the runner starts Lean on /verif/lean/<file>.lean beside the
proofs.  A lemma counts as discharged when Lean accepts the file and reports that the lemma depends on no axiom other than
the three standard ones (so on no `sorry`).  They mention no flowMC code and are the same on every tree."""
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD = {'propext', 'Classical.choice', 'Quot.sound'}


def start(lemmas):
    out = []
    for f, names in (lemmas or {}).items():
        src = open(os.path.join(HERE, 'lean', f + '.lean')).read() + '\n' + ''.join('#print axioms %s\n' % n for n in names)
        t = tempfile.NamedTemporaryFile('w', suffix='.lean', delete=False)
        t.write(src)
        t.close()
        try:
            p = subprocess.Popen(['lean', t.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except OSError as e:
            p = None
        out.append((f, names, t.name, p, src))
    return out


def statement(src, name):
    m = re.search(r'theorem %s\b(.*?):=' % re.escape(name), src, re.S)
    return ' '.join(m.group(1).split())[:400] if m else ''


def finish(ck, jobs):
    from .check import Ob
    for f, names, path, p, src in jobs:
        txt, why = '', 'lean is not installed'
        if p is not None:
            try:
                txt, _ = p.communicate(timeout=400)
                why = '' if p.returncode == 0 else txt[-300:]
            except subprocess.TimeoutExpired:
                p.kill()
                why = 'lean timed out'
        try:
            os.unlink(path)
        except OSError:
            pass
        for n in names:
            o = Ob('%s.lemma/%s' % (ck.prop, n), 'lean/%s.lean: %s' % (f, statement(src, n)))
            m = re.search(r"'%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(n), txt)
            ax = set(x.strip() for x in (m.group(2) or '').split(',') if x.strip()) if m else None
            if not why and ax is not None and ax <= STD:
                o.status, o.how = 'discharged', 'Lean 4 (Mathlib)'
            else:
                o.how, o.detail = 'lean', why or ('axioms %s' % sorted(ax) if ax else 'no answer')
            ck.obs.append(o)
