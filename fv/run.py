import argparse
import os
import sys


def cli():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", choices=("quick", "thorough"))
    p.add_argument("--worker", nargs=3)
    p.add_argument("--out")
    p.add_argument("--replay")
    p.add_argument("--part", action="append")
    p.add_argument("--shards", type=int)
    a = p.parse_args()
    if a.tier:
        os.environ["VERIF_TIER"] = a.tier
    from . import env
    env.speed_up_jinja()
    from . import core
    check = core.load(a.prop)
    tier = a.tier or env.TIER
    if a.worker:
        core.worker(check, a.worker[0], int(a.worker[1]), int(a.worker[2]), tier, a.out)
        return 0
    if a.replay:
        return core.replay(check, a.replay)
    return core.main(check, tier, a.part, a.shards)


if __name__ == "__main__":
    try:
        rc = cli()
    except SystemExit:
        raise
    except BaseException:  # harness failure: never exit 1
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
