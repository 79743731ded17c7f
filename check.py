#!/opt/venv/bin/python
"""check.py <property>: decides one property for /repo's working tree. Tier and seed: VERIF_TIER, VERIF_SEED."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True


def main(pid):
    import registry
    return registry.CHECKS[pid](pid)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
