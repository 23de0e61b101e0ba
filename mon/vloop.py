"""An event loop on virtual time: real sockets, no real waiting.

When nothing is ready the clock jumps to the next timer; sockets (loopback only)
get a moment to deliver before it does.
"""

import asyncio
import selectors

from . import core


class _Selector(selectors.DefaultSelector):
    def __init__(self):
        super().__init__()
        self.now = 0.0
        self.turns = 0
        self.grace = 0.0
        self.max_turns = 200000

    def select(self, timeout=None):
        self.turns += 1
        if self.turns > self.max_turns or core.HUNG:
            raise core.Hang("the event loop turned %d times" % self.turns)
        ready = super().select(0)
        if ready:
            return ready
        if timeout is None or timeout > 0:
            if self.grace:
                ready = super().select(self.grace)
                if ready:
                    return ready
            if timeout is None:
                # nothing scheduled and nothing readable: the loop would sleep
                # for ever
                raise Idle()
            self.now += timeout
        return []


class Idle(Exception):
    """No timer and no input is left."""


class Loop(asyncio.SelectorEventLoop):
    def __init__(self, grace=0.0):
        self.sel = _Selector()
        self.sel.grace = grace
        super().__init__(self.sel)
        self.errors = []
        self.set_exception_handler(lambda loop, context: self.errors.append(context))

    def time(self):
        return self.sel.now

    def run_until(self, t):
        """Run for ever, until virtual time t, a stop, or nothing left."""
        timer = self.call_at(t, self.stop)
        try:
            self.run_forever()
            return "stopped" if self.sel.now < t else "time"
        except Idle:
            return "idle"
        finally:
            timer.cancel()


class using:
    """Make it the current loop of this thread for a while."""

    def __init__(self, loop):
        self.loop = loop

    def __enter__(self):
        asyncio.set_event_loop(self.loop)
        return self.loop

    def __exit__(self, *exc):
        loop = self.loop
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            try:
                loop.sel.turns = 0
                loop.call_soon(loop.stop)
                loop.run_forever()
                loop.call_soon(loop.stop)
                loop.run_forever()
            except Exception:
                pass
        finally:
            loop.close()
            asyncio.set_event_loop(None)
