"""Output directories: created, returned, never emptied."""
import os
import shutil
import tempfile

from oranssi.utils import save_path_creator


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p).read()
    return out


def check(case, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix="sp-", dir=os.environ.get("VERIF_SCRATCH") or None))
    old = os.getcwd()
    os.chdir(root)
    try:
        run(case, ctx, root)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


def run(case, ctx, root):
    made = []
    model = {".": None}

    def request(path, name, segs):
        want = os.path.join(path, name)
        got = ctx.sut("save_path_creator", save_path_creator, path, name)
        ctx.require(isinstance(got, str) and got == want, "returned %r for %r and %r" % (got, path, name))
        ctx.require(os.path.isdir(got), "%r is not a directory afterwards" % got)
        full = [s for s in segs]
        for i in range(1, len(full) + 1):
            model[os.path.join(*full[:i])] = None
        made.append((path, name, list(segs)))

    for op in case["ops"]:
        if op[0] == "make":
            base, name, how = op[1:4]
            style = op[4] if len(op) > 4 else "plain"
            b = os.path.join(*base) if base else ""
            path = b if how == "rel" else os.path.join(root, b) if how == "abs" else os.path.join(root, b, "")
            segs = base + name
            if any(model.get(os.path.join(*segs[:i])) is not None for i in range(1, len(segs) + 1)):
                continue
            if how == "rel" and not segs:
                continue
            ctx.mark(bool(base) and os.path.join(*base) not in model)
            text = os.path.join(*name) if name else ""
            if name and style == "trailing":
                text += "/"
            elif name and style == "dot":
                text = "./" + "/./".join(name)
            elif name and style == "double":
                text = "//".join(name)
            elif name and style == "absolute":
                text = os.path.join(root, *segs)     # an absolute name replaces the base path
            ctx.label("name-" + style)
            request(path, text, segs)
        elif op[0] == "again" and made:
            path, name, segs = made[op[1] % len(made)]
            d = os.path.normpath(os.path.join(*segs)) if segs else "."
            ctx.mark(any(v is not None and os.path.dirname(k) == d for k, v in model.items()))
            request(path, name, segs)
        elif op[0] == "write" and made:
            path, name, segs = made[op[1] % len(made)]
            rel = os.path.join(*(segs + [op[2]]))
            if rel in model and model[rel] is None:
                continue
            with open(os.path.join(root, rel), "w") as f:
                f.write(op[3])
            model[rel] = op[3]
        elif op[0] == "above" and made:
            path, name, segs = made[op[1] % len(made)]
            s = segs[:max(0, len(segs) - op[2])]
            if not s:
                continue
            request(root, os.path.join(*s), s)
        elif op[0] == "below" and made:
            path, name, segs = made[op[1] % len(made)]
            more = op[2]
            s = segs + more
            if not more or any(model.get(os.path.join(*s[:i])) is not None for i in range(1, len(s) + 1)):
                continue
            request(os.path.join(path, name), os.path.join(*more), s)
        ctx.label(op[0])
        got = listing(root)
        ctx.require(got == model, "directory contents: unexpected %s, missing or changed %s" % (
            sorted(set(got) - set(model))[:4], sorted(k for k in model if got.get(k, 0) != model[k])[:4]))
