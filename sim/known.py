"""The known findings recorded in /verif/known_findings.txt."""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "known_findings.txt")


def load():
    """{(property, ident): description} of the findings that are recorded, not repaired."""
    res = {}
    if not os.path.exists(PATH):
        return res
    with open(PATH, encoding="utf-8") as fh:
        for line in fh:
            if line.startswith("finding: "):
                prop, ident, text = line[len("finding: "):].strip().split(" ", 2)
                res[(prop.split("=")[1], ident.split("=")[1])] = text
    return res


def describe(prop, ident):
    return f"{ident}: {load().get((prop, ident), '')}"
