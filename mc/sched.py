"""Controlled scheduler: stateless exploration of all interleavings of real threads up to a preemption bound.

The threads are real ones, but only one of them runs at a time.  A trace function makes every chosen
event (line, bytecode instruction or function call of the library or of generated template code) a
scheduling point; locks created while ``install`` is in effect co-operate with the scheduler.  A
schedule is a set of decisions {step number: thread}; the explorer enumerates all of them in which at
most `bound` preemptions occur (choices at which the running thread cannot go on are free).
"""
import os
import sys
import _thread
import threading
import time

from mc import core

_real_allocate = _thread.allocate_lock
_ident = _thread.get_ident
CURRENT = {}        # thread ident -> Task
LIB = os.path.join(core.REPO, 'kajiki') + os.sep


class Abort(BaseException):
    pass


class CoopLock(object):
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _me(self):
        i = _ident()
        return CURRENT.get(i, i)

    def available(self, who):
        return self.owner is None or (self.reentrant and self.owner is who) or self.owner == who and self.reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while not self.available(me):
            if not blocking:
                return False
            if isinstance(me, Task):
                me.sched.block(me, self)
            else:
                time.sleep(0.0005)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count == 0 or self.reentrant and self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        s = self.owner, self.count
        self.owner, self.count = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.owner, self.count = s

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class CoopRLock(CoopLock):
    reentrant = True


def install():
    """From now on, locks created through the threading module co-operate."""
    threading.Lock = threading._allocate_lock = CoopLock
    threading.RLock = CoopRLock
    threading._RLock = CoopRLock
    if hasattr(threading, '_CRLock'):
        threading._CRLock = CoopRLock
    _thread.allocate_lock = _thread.allocate = CoopLock
    if hasattr(_thread, 'RLock'):
        _thread.RLock = CoopRLock


class Task(object):
    def __init__(self, sched, num, body):
        self.sched, self.num, self.body = sched, num, body
        self.go = _real_allocate()
        self.go.acquire()
        self.done, self.waiting, self.result = False, None, None

    def enabled(self):
        return not self.done and (self.waiting is None or self.waiting.available(self))

    def main(self):
        self.go.acquire()
        CURRENT[_ident()] = self
        try:
            sys.settrace(self.trace)
            try:
                if self.sched.aborted:
                    raise Abort()
                self.result = ('ok', self.body())
            except Abort:
                self.result = ('aborted',)
            except Exception as e:
                self.result = ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))
            except BaseException as e:
                self.result = ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))
            finally:
                sys.settrace(None)
        finally:
            del CURRENT[_ident()]
            self.done = True
            self.sched.finished(self)

    def trace(self, frame, event, arg):
        level = self.sched.level(frame.f_code)
        if level == 0:
            return None
        self.sched.point(self)
        if level == 1:
            return None
        if level == 3:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.sched.point(self)
        return self.local


class Sched(object):
    def __init__(self, bodies, decisions, gran):
        self.tasks = [Task(self, i, b) for i, b in enumerate(bodies)]
        self.decisions, self.gran = decisions, gran
        self.step, self.points = 0, []      # points: (step, current, other enabled tasks, preemptive?)
        self.aborted = self.deadlock = False
        self.end = _real_allocate()
        self.end.acquire()
        self.levels = {}

    def level(self, code):
        fn = code.co_filename
        v = self.levels.get(fn)
        if v is None:
            if fn.startswith(LIB):
                v = self.gran.get(fn[len(LIB):], self.gran.get('*', 0))
            elif fn.startswith('<string>') or '/mc-' in fn:
                v = self.gran.get('template', 0)
            else:
                v = 0
            self.levels[fn] = v
        return v

    def run(self):
        for t in self.tasks:
            _thread.start_new_thread(t.main, ())
        first = self.pick(None)
        first.go.release()
        self.end.acquire()
        return [t.result for t in self.tasks]

    def pick(self, cur):
        """A free choice: the running task cannot go on."""
        self.step += 1
        en = [t for t in self.tasks if t.enabled()]
        if not en:
            return None
        n = self.decisions.get(self.step)
        for t in en:
            if t.num == n:
                break
        else:
            t = en[0]
        others = tuple(x.num for x in en if x is not t)
        if others:
            self.points.append((self.step, t.num, others, 0))
        return t

    def point(self, task):
        if self.aborted:
            raise Abort()
        self.step += 1
        others = tuple(t.num for t in self.tasks if t is not task and t.enabled())
        if not others:
            return
        n = self.decisions.get(self.step)
        if n is not None and n in others:
            self.tasks[n].go.release()
            task.go.acquire()
            if self.aborted:
                raise Abort()
        else:
            self.points.append((self.step, task.num, others, 1))

    def block(self, task, lock):
        if self.aborted:
            raise Abort()
        task.waiting = lock
        nxt = self.pick(task)
        if nxt is None:
            self.deadlock = self.aborted = True
            raise Abort()
        if nxt is not task:
            nxt.go.release()
            task.go.acquire()
        task.waiting = None
        if self.aborted:
            raise Abort()

    def finished(self, task):
        left = [t for t in self.tasks if not t.done]
        if not left:
            self.end.release()
            return
        if self.aborted:
            left[0].go.release()
            return
        nxt = self.pick(task)
        if nxt is None:
            self.deadlock = self.aborted = True
            left[0].go.release()
            return
        nxt.go.release()


def explore(make, gran, bound, part, parts, check):
    """All schedules with at most `bound` preemptions; those with a different first preemption are shared out over `parts`.

    make() -> (bodies, cleanup, extra); check(decisions, results, deadlock, extra).  Returns (schedules, points).
    """
    schedules, total = 0, 0

    def go(decisions, used, after):
        bodies, cleanup, extra = make()
        try:
            s = Sched(bodies, decisions, gran)
            res = s.run()
            if check is not None:
                check(decisions, res, s.deadlock, extra)
        finally:
            cleanup()
        return [p for p in s.points if p[0] > after], s.step

    stack = [({}, 0, 0, True)]
    while stack:
        decisions, used, after, root = stack.pop()
        pts, steps = go(decisions, used, after)
        if not root or part == 0:
            schedules += 1
            total += steps
        branch = 0
        for step, cur, others, cost in pts:
            if used + cost > bound:
                continue
            for o in others:
                if root and cost:
                    branch += 1
                    if branch % parts != part:
                        continue
                d = dict(decisions)
                d[step] = o
                # schedules without preemption are run by every share, but counted once
                stack.append((d, used + cost, step, root and not cost))
    return schedules, total
