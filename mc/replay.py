"""Re-execute the task of a violation file; exit 1 if it is reported again."""
import importlib
import json

import engine


def main(path):
    with open(path) as fh:
        v = json.load(fh)
    prop, tier = v["property"], v["tier"]
    label = str(v["label"])
    mod = importlib.import_module(f"props.{prop.lower()}")
    tasks = engine._tasks(mod, tier)
    hits = [i for i, t in enumerate(tasks) if str(t.get("label", i)) == label]
    again = False
    for i in hits:
        _, r = engine._call((prop, i, tier))
        if r["err"]:
            print(r["err"])
        for w in r["violations"]:
            again = True
            print(("same: " if w["what"] == v["what"] else "other: ") + w["what"][:1000])
    print(f"{prop}: task {label!r}: " + ("violated" if again else "not violated" if hits else "no such task"))
    return 1 if again else 0
