import importlib, pathlib, sys, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
import core

MODULES = {}
for f in pathlib.Path(__file__).resolve().parent.glob('d_*.py'):
    for line in f.read_text().splitlines():
        if line.startswith('#: '):
            for pid in line[3:].split():
                MODULES[pid] = f.stem


def main():
    pid = sys.argv[1]
    check = core.Check(pid)
    try:
        mod = importlib.import_module(MODULES[pid])
        getattr(mod, f'check_{pid}')(check)
    except core.SpecError as e:
        print(f'SPEC ERROR: {e}')
        return 3
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        # the code under test failed in a way that no single case accounts for
        check.violation(f'exception:{type(e).__name__}', traceback.format_exc()[-4000:])
    return check.finish()


if __name__ == '__main__':
    sys.exit(main())
