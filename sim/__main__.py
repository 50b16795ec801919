import importlib
import os
import sys


def get_check(pid):
    from sim import boot
    boot.boot()
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def main():
    from sim import core
    args = sys.argv[1:]
    if args[0] == "setup":
        from sim import boot
        boot.boot()
        print("simulator ready")
        return 0
    if args[0] == "replay":
        return core.main_replay(get_check, args[1])
    if args[0] == "determinism":
        return core.main_determinism(get_check(args[1]), int(args[2]))
    if len(args) > 1:
        os.environ["VERIF_TIER"] = args[1]
    return core.main_check(get_check(args[0]))


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
