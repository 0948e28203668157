import importlib
import os
import sys
import traceback


def main():
    args = sys.argv[1:]
    prop = args[0]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1:
        if args[1] == "--replay":
            replay = os.path.abspath(args[2])
        else:
            tier = args[1]
    core = None
    try:
        from mc import boot  # noqa: F401  (sets the paths before anything else is imported)
        from mc import core
        module = importlib.import_module("checks." + prop.lower())
    except Exception:
        # The code under test (or a name that its interface documents) can not even be imported: no behaviour is left.
        text = traceback.format_exc()
        print(text)
        if core is None:
            sys.stdout.flush()
            os._exit(2)
        code = core.broken_import(prop, tier, text)
    else:
        code = core.main(prop, module, tier, replay)
    sys.stdout.flush()
    os._exit(code)


main()
