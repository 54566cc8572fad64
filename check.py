"""python3-vt check.py PROPERTY [quick|thorough]: decide one property of the code in /repo."""
import os
import sys
import time

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from symx import driver, instrument, ops
    sys.path.insert(0, driver.REPO)
    from symx import xmldoc
    xmldoc.install()
    xmldoc.scratch_dir()        # of this process and its children
    import logging
    logging.disable(logging.CRITICAL)
    instrument.install([driver.REPO, os.path.join(HERE, 'harness')], ops)
    import tasks
    import meta
    m = dict(meta.META[prop], t0=T0)
    bad = []
    if m.get('all_classes', True):
        bad = tasks.import_all()
    ts, extra = tasks.BUILDERS[prop](tier)
    only = os.environ.get('VERIF_ONLY')
    if only:
        ts = [t for t in ts if only in t.name]
    extra = dict(extra)
    if bad:
        extra['modules_that_do_not_import'] = bad[:20]
    m['extra'] = extra
    if tier == 'quick':
        m['stop'] = T0 + 780
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '5400'))
    sys.exit(driver.run(prop, ts, tier, m, budget))


if __name__ == '__main__':
    main()
