"""Deterministic interleaving of a few threads at line granularity (sys.settrace), and a pool of named
threads that execute calls one at a time."""
import queue
import sys
import threading


class Hang(Exception):
    """A call did not come back."""


PATIENCE = 20


class Worker(threading.Thread):
    """A thread that executes functions handed over to it."""
    def __init__(self):
        super().__init__(daemon=True)
        self.inq, self.outq = queue.Queue(), queue.Queue()
        self.start()

    def run(self):
        while True:
            f = self.inq.get()
            if f is None:
                return
            self.outq.put(f())

    def call(self, f):
        self.inq.put(f)
        try:
            return self.outq.get(timeout=PATIENCE)
        except queue.Empty:
            raise Hang()

    def stop(self):
        self.inq.put(None)
        self.join(1)


class Interleaver:
    """Runs functions in the given workers, switching between them at random at lines of the given files.
    A thread that does not come back within `patience` is taken to wait for a lock that another one holds."""
    def __init__(self, rng, files, patience=0.004, switch=0.4):
        self.rng, self.files, self.patience, self.switch = rng, files, patience, switch
        self.back = queue.Queue()

    def _wrap(self, i, f):
        go = self.go[i]

        def local(frame, event, arg):
            if event == 'line':
                self.back.put((i, 'paused'))
                go.acquire()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith(self.files) else None

        def run():
            go.acquire()
            sys.settrace(tracer)
            try:
                return f()
            finally:
                sys.settrace(None)
                self.back.put((i, 'done'))
        return run

    def run(self, jobs):
        """jobs: [(worker, function)]; returns the results"""
        n = len(jobs)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        for i, (w, f) in enumerate(jobs):
            w.inq.put(self._wrap(i, f))
        ready, running, done, cur = set(range(n)), set(), set(), 0
        self.steps = 0
        while len(done) < n:
            while True:     # collect threads that came back
                try:
                    i, what = self.back.get_nowait()
                except queue.Empty:
                    break
                running.discard(i)
                (done if what == 'done' else ready).add(i)
            if not ready:
                if len(done) < n:
                    try:
                        i, what = self.back.get(timeout=PATIENCE)
                    except queue.Empty:
                        raise Hang()
                    running.discard(i)
                    (done if what == 'done' else ready).add(i)
                continue
            if cur not in ready or self.rng.random() < self.switch:
                cur = self.rng.choice(sorted(ready))
            ready.discard(cur)
            running.add(cur)
            self.steps += 1
            self.go[cur].release()
            try:
                i, what = self.back.get(timeout=self.patience)
                running.discard(i)
                (done if what == 'done' else ready).add(i)
            except queue.Empty:
                pass        # (blocked)
        return [w.outq.get(timeout=60) for w, _ in jobs]
