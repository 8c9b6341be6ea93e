"""Development aid: load the tree with one SAME/BUG edit applied."""
import os, sys, shutil, atexit
_T = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [_T, os.path.dirname(_T)]
def load(name=None, prop=None):
    import mut, mutants
    if name:
        e = sorted(((x[1] != prop, k, x[-1]) for k, x in enumerate(mutants.SAME + mutants.BUGS) if x[0] == name), key=lambda t: t[:2])[0][2]
        d, err = mut.prepare(e)
        assert d, err
        os.environ['OWC_REPO'] = d
        atexit.register(shutil.rmtree, d)
    from owcstatic import analyses
    return analyses


if __name__ == '__main__':
    # lab.py CXX [mutant]: run one check on the edited tree, print what is not ok
    import tempfile, importlib, json
    A = load(sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-a' else None, sys.argv[1])
    d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d)
    os.environ['OWC_VERIF'] = d
    from owcstatic import report
    if hasattr(report, 'VERIF'):
        report.VERIF = d
    orig = report.Check._add
    def add(self, rule, inst, status, detail, loc):
        if status != 'ok' or '-a' in sys.argv:
            print(status.upper()[:5], '|', rule, '|', inst, '|', str(detail)[:500], '|', loc)
        return orig(self, rule, inst, status, detail, loc)
    report.Check._add = add
    print('rc', importlib.import_module('owcstatic.checks.' + sys.argv[1].lower()).main())
