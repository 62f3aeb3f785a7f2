import asyncio
import importlib
import json
import sys
import traceback


def main():
    job = json.load(open(sys.argv[1]))
    mod, fn = job["scenario"].split(":")
    try:
        res = asyncio.run(getattr(importlib.import_module("rbv." + mod), fn)(job))
    except Exception:
        res = {"error": traceback.format_exc()}
    with open(job["out"], "w") as f:
        json.dump(res, f)


main()
