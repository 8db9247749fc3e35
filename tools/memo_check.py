#!/usr/bin/env python3
"""memo_check.py VERIF-COPY MEMO-DIR PROPERTY...: run checks, keeping what TLC prints for equal inputs.

A tool for tools/mutate.py only: a check's quick run asks the specification the same questions for every change of the
crate (as long as it does not depend on what the crate printed), so mutants can be run on kept answers."""
import hashlib, os, sys, threading
copy, memo = sys.argv[1], sys.argv[2]
sys.path.insert(0, os.path.join(copy, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import engine, findings, model, props
real = model.tlc


def tlc(module, cfg, env, on_line, timeout=800, workers=None, scratch=None):
    h = hashlib.sha256()
    for x in [module + ".tla", cfg]:
        h.update(open(os.path.join(model.SPEC, x), "rb").read())
    for k in sorted(env):
        v = env[k]
        h.update(k.encode())
        h.update(open(v, "rb").read() if os.path.isfile(v) else v.encode())
    p = os.path.join(memo, h.hexdigest())
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                on_line(line)
        return 0, 0
    kept = []

    def both(line):
        kept.append(line)
        on_line(line)
    r = real(module, cfg, env, both, timeout, workers, scratch)
    t = p + ".%d" % os.getpid()
    with open(t, "w") as f:
        f.writelines(kept)
    os.rename(t, p)
    return r


model.tlc = tlc
for pid in sys.argv[3:]:
    ck = engine.Check(pid, "quick", 1)
    code = 0
    try:
        ck.start_build()
        props.CHECKS[pid](ck)
        if ck.build_thread:
            ck.build_thread.join()
        if ck.build_error:
            raise engine.BuildError(ck.build_error)
    except Exception as e:
        print(pid, "ERROR", str(e)[:300])
        code = 2
    finally:
        ck.close()
    new = [v for v in ck.violations if not findings.match(findings.load(), pid, v[2])]
    if new:
        print(pid, "CAUGHT", new[0][1][:200].replace("\n", " "))
        code = 1
    print(pid, "rc", code, "%.1f s" % ck.elapsed(), flush=True)
    if code == 1:
        sys.exit(1)
