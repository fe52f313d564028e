"""Several programs at the same time, delays injected before their file operations."""
import os, signal, subprocess, threading, time
from .harness import popen


def run_many(case, sp, cmds, delay, timeout=90):
    """start all, delays injected; [(cmd, rc, err)]"""
    r = case.rng
    ps = []
    for k, (prog, args, inp) in enumerate(cmds):
        env = dict(sp.env(), LD_PRELOAD=case.ctx["shim"], SHIM_SEED=str(r.getrandbits(20)), SHIM_DELAY=str(delay),
                   SHIM_PROB=str(r.choice([10, 40, 80])), SHIM_SLEEP="1000", SHIM_LOG=sp.p("shimlog"))
        p = popen([os.path.join(case.ctx["src"]["plain"], prog)] + args, sp.d, env,
                  stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL)
        if inp is not None:
            try:
                p.stdin.write(inp); p.stdin.close()
            except BrokenPipeError:
                pass
            p.stdin = None
        ps.append(p)
        if r.random() < .3:
            time.sleep(r.random() * .01)
    res = [None] * len(ps)

    def collect(i):
        try:
            out, err = ps[i].communicate(timeout=timeout)
            res[i] = (cmds[i], ps[i].returncode, err)
        except subprocess.TimeoutExpired:
            os.killpg(ps[i].pid, signal.SIGKILL)
            out, err = ps[i].communicate()
            res[i] = (cmds[i], None, err)
    ts = [threading.Thread(target=collect, args=(i,)) for i in range(len(ps))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for c, rc, err in res:
        if rc is None:
            case.fail("lock-hang", "%s %s hangs with others running" % (c[0], c[1]))
        elif rc < 0:
            case.fail("crash", "%s %s died of signal %d: %s" % (c[0], c[1], -rc, err[-300:]))
        case.evals += 1
    if os.path.exists(sp.p("shimlog")):
        n = [list(map(int, x.split())) for x in open(sp.p("shimlog"))]
        case.seen("file_operations", sum(x[0] for x in n)); case.seen("injected_delays", sum(x[1] for x in n))
        case.seen("slept_for_lock", sum(x[2] for x in n))
    case.seen("concurrent_processes", len(cmds))
    return res
