"""One worker process: runs its share of the cases of one property and prints one JSON line per case."""
import importlib
import json
import os
import signal
import sys
import time
import traceback


class CaseHung(BaseException):
    pass


def _hung(*_):
    raise CaseHung('one case ran for too long')


def run_case(mod, pid, seed, idx, tier):
    import numpy as np
    from .core import Ctx, Reject, Violation, through_repo
    from .env import keras, set_mode, tf
    ctx = Ctx(pid, seed, idx, tier)
    ss = np.random.SeedSequence([seed, int(pid[1:]), idx])
    rng = np.random.default_rng(ss)
    keras.backend.clear_session()
    tf.random.set_seed(int(ss.generate_state(1)[0] % (2**31)))
    np.random.seed(int(ss.generate_state(2)[1]) % (2**32))
    set_mode('eager')
    status = 'ok'
    signal.signal(signal.SIGALRM, _hung)
    signal.alarm(getattr(mod, 'CASE_TIMEOUT', 240))
    try:
        mod.case(ctx, rng)
    except Reject as e:
        status = 'reject'
        ctx.count('rejected')
        ctx.step(f'reject {e}')
    except CaseHung as e:
        status = 'error'
        ctx.step(traceback.format_exc()[-3000:])
    except Violation as e:
        ctx.fail(e.key, e.msg)
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if through_repo(e):
            # an operation inside the property's domain blew up in the code under test
            ctx.fail(f'exception:{type(e).__name__}', tb[-3000:])
        else:
            status = 'error'
            ctx.step(tb[-3000:])
    finally:
        signal.alarm(0)
    set_mode('eager')
    return ctx, status


def main():
    pid, seed, tier, w, n, ncases, deadline, out = sys.argv[1:9]
    seed, w, n, ncases, deadline = int(seed), int(w), int(n), int(ncases), float(deadline)
    only = [int(v) for v in sys.argv[9].split(',')] if len(sys.argv) > 9 else None
    mod = importlib.import_module(f'vlib.checks.{pid.lower()}')
    t0 = time.time()
    idxs = only if only is not None else range(w, ncases, n)
    with open(out, 'a', buffering=1) as fh:
        for idx in idxs:
            if time.time() - t0 > deadline and idx != idxs[0]:
                fh.write(json.dumps({'idx': idx, 'status': 'skipped'}) + '\n')
                continue
            t1 = time.time()
            fh.write(json.dumps({'idx': idx, 'status': 'start'}) + '\n')
            ctx, status = run_case(mod, pid, seed, idx, tier)
            fh.write(json.dumps({'idx': idx, 'status': status, 'evaluations': ctx.evaluations, 'counters': ctx.counters,
                                 'distinct': sorted(ctx.distinct), 'violations': ctx.violations, 'sample': ctx.sample,
                                 'log': ctx.log[-60:] if (ctx.violations or status != 'ok') else [], 't': round(time.time() - t1, 2)}, default=str) + '\n')
        fh.write(json.dumps({'status': 'end'}) + '\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
