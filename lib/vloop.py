"""
Event loops for the workloads.

``VLoop`` keeps *logical* time: real socket readiness is always served first
and time only jumps to the next timer when no I/O is ready, no executor job is
running and a short real-time grace period showed no new activity.  Timeouts
in the code under test therefore cost nothing, verdicts don't depend on how
loaded the machine is, and "nothing can ever happen again" is detected
logically (no timer, no I/O) instead of with a wall-clock deadline.
"""

import asyncio
import selectors
import time

from .core import Stalled


class _Selector:
    """Wraps a real selector with the logical clock."""

    def __init__(self, inner, loop):
        self.inner = inner
        self.loop = loop

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def select(self, timeout=None):
        inner, loop = self.inner, self.loop
        events = inner.select(0)
        if events or (timeout is not None and timeout <= 0):
            loop.idle_since = None
            return events

        if loop.pending_jobs:
            wait = 5.0 if timeout is None else max(0.05, min(timeout, 5.0))
            events = inner.select(wait)
            if events or loop.pending_jobs:
                loop.idle_since = None
                return events

        if timeout is None:
            # Nothing is scheduled: only I/O can wake this loop up.
            now = time.monotonic()
            if loop.idle_since is None:
                loop.idle_since = now
            events = inner.select(0.05)
            if events:
                loop.idle_since = None
            elif now - loop.idle_since > loop.dead_after:
                loop.declare_dead()
            return events

        loop.idle_since = None
        events = inner.select(loop.grace if timeout < 0.5 else loop.grace * 10)
        if not events:
            loop.now += timeout
        return events


class VLoop(asyncio.SelectorEventLoop):
    """An event loop on logical time."""

    def __init__(self, grace=0.001, dead_after=2.0):
        super().__init__(selectors.DefaultSelector())
        self.now = 1000.0
        self.grace = grace
        self.dead_after = dead_after
        self.pending_jobs = 0
        self.idle_since = None
        self.dead = False
        self.main = None
        self._selector = _Selector(self._selector, self)

    def time(self):
        return self.now

    def run_in_executor(self, executor, func, *args):
        fut = super().run_in_executor(executor, func, *args)
        self.pending_jobs += 1

        def done(_):
            self.pending_jobs -= 1

        fut.add_done_callback(done)
        return fut

    def declare_dead(self):
        if not self.dead:
            self.dead = True
            if self.main is not None:
                self.main.cancel()


def run(coro, virtual=True, limit=120.0, real_limit=60.0, grace=0.001,
        errors=None, eager_close=True):
    """
    Run a coroutine.  ``limit`` is logical seconds for virtual loops;
    ``real_limit`` is the wall-clock watchdog.  Both end the run as
    :class:`Stalled` (re-executed before it is believed).
    """

    loop = VLoop(grace=grace) if virtual else asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    state = {"stalled": None}

    def on_error(_, context):
        if errors is not None:
            errors.append(context)

    loop.set_exception_handler(on_error)

    async def body():
        task = asyncio.current_task()
        if virtual:
            loop.main = task

        def expire():
            state["stalled"] = "logical time limit" if virtual else "limit"
            task.cancel()

        handle = loop.call_later(limit if virtual else real_limit, expire)
        try:
            return await coro
        finally:
            handle.cancel()

    import threading

    task = loop.create_task(body())

    def hard():
        state["stalled"] = "wall-clock watchdog"
        loop.call_soon_threadsafe(task.cancel)

    timer = threading.Timer(real_limit + (0 if virtual else 5.0), hard)
    timer.daemon = True
    timer.start()
    try:
        return loop.run_until_complete(task)
    except asyncio.CancelledError as exc:
        if state["stalled"] or getattr(loop, "dead", False):
            raise Stalled(
                state["stalled"] or "nothing scheduled and no I/O pending"
            ) from exc
        raise
    finally:
        timer.cancel()
        try:
            if virtual:
                loop.main = None
            pending = [x for x in asyncio.all_tasks(loop) if not x.done()]
            for item in pending:
                item.cancel()
            if pending:
                loop.run_until_complete(
                    asyncio.wait(pending, timeout=5.0)
                )
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:  # pragma: no cover
            pass
        finally:
            asyncio.set_event_loop(None)
            if eager_close:
                loop.close()
