"""Random delays at source lines of the code under test, injected by a trace function per thread."""
import os
import random
import sys
import threading
import time


class Delays:
    def __init__(self, files, intensity, pauses):
        self.files = tuple(os.sep + f.replace("/", os.sep) for f in files)
        self.intensity, self.pauses = intensity, pauses
        self.slow = 0

    def tracer(self, seed):
        rnd = random.Random(seed)

        def local(frame, ev, arg):
            if rnd.random() < self.intensity:
                self.slow += 1
                time.sleep(rnd.choice(self.pauses))
            return local
        return lambda frame, ev, arg: local if frame.f_code.co_filename.endswith(self.files) else None


def together(case, fns, delays, seed, timeout=100):
    """Run the functions at once, each in a thread of its own with its own delays; errors are raised here."""
    errors = []
    gate = threading.Barrier(len(fns))

    def body(i, f):
        gate.wait(30)
        sys.settrace(delays.tracer(f"{seed}:{i}"))
        try:
            f()
        except BaseException as exc:
            errors.append(exc)
        finally:
            sys.settrace(None)

    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(timeout)
            if t.is_alive():
                case.fail("the threads do not come back", key="stuck")
    finally:
        sys.setswitchinterval(sw)
    if errors:
        raise errors[0]
