import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import engine, props, props_more, props_prompts, props_sh  # noqa: E402

P = {p.id: p for p in props.PROPS + props_more.PROPS + props_sh.PROPS + props_prompts.PROPS}


def main(a):
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        scale = float(a[a.index("--scale") + 1]) if "--scale" in a else 1.0
        return engine.check(P[a[1]], int(os.environ.get("VERIF_SEED", "1")), tier, scale)
    if a[0] == "replay":
        import json
        d = json.load(open(a[1]))
        top = engine.scratch()
        import shutil
        os.makedirs(top)
        try:
            pid = os.fork()
            if pid == 0:
                rc = engine.replay(P[d["property"]], a[1], os.path.join(top, "wimbd-pysim-rep"))
                sys.stdout.flush()
                os._exit(rc)
            return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        finally:
            shutil.rmtree(top, ignore_errors=True)
    if a[0] == "list":
        print("\n".join(P))
        return 0
    print("usage: main.py check ID [--tier T] [--scale X] | replay FILE | list", file=sys.stderr)
    return 2


sys.exit(main(sys.argv[1:]))
