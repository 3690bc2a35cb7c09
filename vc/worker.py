"""One verification task in its own process.

  python -m vc.worker sym <uid> <repo> <seconds> <obligation budget>
  python -m vc.worker con <json>          (a batch; one JSON line per unit)
"""
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    import contracts

    units = contracts.load_all()
    if sys.argv[1] == "sym":
        import threading

        threading.stack_size(512 << 20)
        out = {}

        def job():
            from vc.symback import run_symbolic

            u = units[sys.argv[2]]
            out.update(run_symbolic(u.fn, u.variant, u.uid, sys.argv[3], float(sys.argv[4]), ob_budget=float(sys.argv[5])))

        th = threading.Thread(target=job)
        th.start()
        th.join()
        sys.stdout.write("\n@@" + json.dumps(out, default=str) + "\n")
        sys.stdout.flush()
        os._exit(0)
    spec = json.loads(sys.argv[2])
    from vc.conback import run_concrete, run_one

    for item in spec["units"]:
        u = units[item["uid"]]
        t0 = time.time()
        if item.get("plan") is not None:
            out = {"runs": 0, "checks": 0, "violation": None, "skipped": 0, "errors": []}
            out["violation"] = run_one(u.fn, u.variant, u.uid, spec["repo"], item["plan"], out)
        else:
            out = run_concrete(u.fn, u.variant, u.uid, spec["repo"], seeds=item["seeds"], dims_list=item.get("dims", ()), stats=item["stats"], t_end=time.time() + item["seconds"], hints=item.get("hints"))
        out["uid"] = u.uid
        out["seconds"] = round(time.time() - t0, 2)
        sys.stdout.write("\n@@" + json.dumps(out, default=str) + "\n")
        sys.stdout.flush()


main()
