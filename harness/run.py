"""Entry point of all checks:  run.py C01 [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import boot


def main():
    prop = sys.argv[1]
    import report
    try:
        boot.setup()
    except Exception as exc:
        print('%s: cannot build or import the code under test: %s' % (prop, exc))
        sys.exit(3)
    mod = None
    c = report.Check(prop, 'model_checking')
    try:
        mod = importlib.import_module(prop.lower())
        c.level = getattr(mod, 'LEVEL', c.level)
        mod.run(c, boot.TIER == 'quick')
    except SystemExit:
        raise
    except BaseException as exc:
        traceback.print_exc()
        if mod is not None and not isinstance(exc, KeyboardInterrupt) and report.from_code_under_test(exc):
            c.violation('unexpected failure of the code under test: ' + report.describe(exc),
                        dict(traceback=traceback.format_exc()[-6000:]))
            c.finish()
        if c.viol:
            c.finish()
        sys.exit(3)
    c.finish()


if __name__ == '__main__':
    main()
