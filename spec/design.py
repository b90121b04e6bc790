"""Writes DESIGN.md from DESIGN.tmpl.md (python3-vt spec/design.py)."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))


def main():
    from ntnvc import registry
    t = (ROOT / "spec" / "DESIGN.tmpl.md").read_text()
    b = ["\n\n| contract | bound |\n|---|---|"] + ["| %s | %s |" % (c.id, c.bounded) for c in registry.load_all() if c.bounded]
    fx = []
    for line in (ROOT / "KNOWN_FINDINGS.txt").read_text().splitlines():
        if line.startswith("fixed:"):
            _, p, h, w = line.split(" ", 3)
            fx.append("* %s `%s` %s" % (p.split("=")[1], h, w))
    sd = ["| seed | property, caught by | breaks | needs |\n|---|---|---|---|"]
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        sd.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"], m["needs"]))
    t = t.replace("@@BOUNDED@@", "\n".join(b)).replace("@@FIXES@@", "\n".join(fx)).replace("@@SEEDS@@", "\n".join(sd))
    (ROOT / "DESIGN.md").write_text(t)


if __name__ == "__main__":
    main()
