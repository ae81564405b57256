#!/usr/bin/env python3
"""Entry point of every check: run.py <property> (VERIF_SEED, VERIF_TIER)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common  # noqa: E402

AREAS = {
    "freqcd": ("C01", "C02", "C03", "C04"),
    "clock": ("C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24"),
    "epochs": ("C10", "C11", "C12", "C13", "C14", "C15", "C30"),
    "testcase": ("C23",),
    "stats": ("C25",),
    "plot": ("C26",),
    "detune": ("C27",),
    "options": ("C28",),
    "searchlog": ("C29",),
    "job": ("C31",),
    "standin": ("C32",),
    "args": ("C33",),
    "session": ("C34",),
    "stream": ("C35",),
    "logs": ("C36",),
    "endure": ("C37",),
    "eventfile": ("C05", "C06", "C07", "C08", "C09"),
}


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    area = [a for a, ps in AREAS.items() if prop in ps][0]
    ctx = common.Ctx(prop)
    try:
        mod = importlib.import_module(area)
        getattr(mod, "check_" + prop)(ctx)
        return common.finish(ctx, "model_checking")
    except common.MachineryError as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
