"""Thread, Queue and clock under the control of the check: only one thread runs at a time, at every
queue operation of the main thread the solver-chosen schedule decides how far the worker gets first"""
import threading as _th


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, P, idle=2, plan=None):
        # plan: (operations the worker waits, steps it then makes at once, ...); then every schedule
        self.plan = list(plan or [])
        self.P = P
        self.workers = []
        self.n = 0
        self.idle = idle        # a worker that could run waits for at most that many operations
        self.waited = 0

    def close(self):
        for w in self.workers:
            w.abort = True
            while not w.done:
                w.step()

    def runnable(self):
        return [w for w in self.workers if not w.done and not (w.blocked and w.blocked.full())]

    def point(self):
        """an operation of the main thread on shared state: let workers run before it"""
        while True:
            r = self.runnable()
            if not r:
                return
            if self.plan:
                if self.waited < self.plan[0]:
                    self.waited += 1
                    return
                if len(self.plan) > 1 and self.plan[1] > 0:
                    self.plan[1] -= 1
                    r[0].step()
                    continue
                self.plan = self.plan[2:]
                self.waited = 0
                if self.plan:
                    continue
                self.waited = self.idle
                return
            if self.idle < 0:
                return r[0].step()
            if self.waited < self.idle:
                self.n += 1
                if not self.P.bool("worker runs %d" % self.n):
                    self.waited += 1
                    return
            self.waited = 0
            r[0].step()

    def wait_for(self, q):
        while not q.items:
            r = self.runnable()
            if not r:
                raise AssertionError("deadlock: get from an empty queue that nobody fills")
            self.waited = 0
            r[0].step()

    def current(self):
        t = _th.current_thread()
        for w in self.workers:
            if w.thread is t:
                return w

    # replacements ----------------------------------------------------------
    def Thread(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        return Worker(self, target, args, kwargs or {}, daemon)

    def Queue(self, maxsize=0):
        return Queue(self, maxsize)


class Worker:
    def __init__(self, sched, target, args, kwargs, daemon):
        self.sched, self.done, self.abort, self.blocked = sched, True, False, None
        self.daemon = daemon
        self.go, self.back = _th.Semaphore(0), _th.Semaphore(0)
        self.call = (target, args, kwargs)
        self.error = None

    def start(self):
        self.done = False
        self.sched.workers.append(self)
        self.thread = _th.Thread(target=self.run, daemon=True)
        self.thread.start()
        self.back.acquire()

    def run(self):
        self.pause()
        try:
            if not self.abort:
                self.call[0](*self.call[1], **self.call[2])
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def pause(self):
        """worker side: give control back"""
        self.back.release()
        self.go.acquire()

    def step(self):
        """main side: run the worker up to its next operation"""
        self.go.release()
        self.back.acquire()

    def is_alive(self):
        return not self.done

    def join(self, timeout=None):
        while not self.done:
            self.step()


class Queue:
    def __init__(self, sched, maxsize):
        self.sched, self.maxsize, self.items, self.unfinished = sched, maxsize, [], 0

    def full(self):
        return 0 < self.maxsize <= len(self.items)

    def _op(self):
        w = self.sched.current()
        if w is None:
            self.sched.point()
        else:
            w.pause()
            if w.abort:
                raise Stop
        return w

    def empty(self):
        self._op()
        return not self.items

    def qsize(self):
        self._op()
        return len(self.items)

    def put(self, x, block=True, timeout=None):
        import queue
        w = self._op()
        if self.full():
            if not block:
                raise queue.Full
            if w is None:
                raise AssertionError("deadlock: put in a full queue that nobody empties")
            w.blocked = self
            while self.full():
                w.pause()
                if w.abort:
                    raise Stop
            w.blocked = None
        self.items.append(x)
        self.unfinished += 1

    def put_nowait(self, x):
        self.put(x, block=False)

    def get(self, block=True, timeout=None):
        import queue
        w = self._op()
        if not self.items:
            if not block:
                raise queue.Empty
            if w is None:
                self.sched.wait_for(self)
            else:
                while not self.items:
                    w.pause()
                    if w.abort:
                        raise Stop
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        self.unfinished -= 1
        if self.unfinished < 0:
            raise ValueError("task_done() called too many times")

    def join(self):
        pass
