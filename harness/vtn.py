"""Helpers to drive an OpenADRServer in virtual time, without TLS sockets."""
import asyncio
import contextvars
import zlib
import vclock
vclock.install()
import net
net.install()
import wire

PREFIXES = ['/OpenADR2/Simple/2.0b', '/OpenADR2/Simple/2.0b/', '/OpenADR2/Simple/2.0b', '', '/', '/x', '/X/y.z/']
PID = contextvars.ContextVar('pid', default=None)


def reply_record(pid, reply):
    """What the requester sees, in the form the specifications use."""
    if reply.status != 200:
        return {'pid': pid, 'type': f'HTTP{reply.status}', 'code': '', 'events': []}, None
    m = wire.read(reply.body)
    t = m.type if m.valid else ('INVALID' if m.type != 'GARBAGE' else ('EMPTY' if not reply.body else 'GARBAGE'))
    return {'pid': pid, 'type': t, 'code': '' if t == 'oadrDistributeEvent' else (m.code or ''), 'events': []}, m


def some_prefix(*what):
    """a path under which a VTN offers its services, as an application may write it"""
    return PREFIXES[zlib.crc32(repr(what).encode()) % len(PREFIXES)]


class Requests:
    """Requests to a server that may be suspended in application callbacks."""

    def __init__(self, loop, app, prefix):
        self.loop, self.app, self.prefix = loop, app, prefix.rstrip('/') + '/'
        self.tasks = {}
        self.gates = {}       # pid -> future
        self.order = []       # pids in the order in which they finished

    def start(self, pid, service, xml, secure=False, der=None, headers=None):
        async def go():
            PID.set(pid)
            r = await net.serve(self.app, self.prefix + service, xml, secure=secure, der=der, headers=headers)
            self.order.append(pid)
            return r
        self.tasks[pid] = self.loop.create_task(go())

    async def gate(self):
        pid = PID.get()
        f = self.loop.create_future()
        self.gates[pid] = f
        try:
            await f
        finally:
            self.gates.pop(pid, None)

    def resume(self, pid, ok):
        f = self.gates.get(pid)
        if f is not None and not f.done():
            if ok:
                f.set_result(None)
            else:
                f.set_exception(RuntimeError('callback fails'))

    def finished(self):
        """replies since the last call: [(pid, Reply)]"""
        out = []
        for pid in self.order:
            out.append((pid, self.tasks.pop(pid).result()))
        self.order = []
        return out

    def pending(self):
        return sorted(self.gates)

    def close(self):
        for t in self.tasks.values():
            t.cancel()


def close_loop(loop):
    if loop is not loop.real:
        return
    for t in asyncio.all_tasks(loop):
        t.cancel()
    try:
        loop.settle()
    except BaseException:
        pass
    loop.close()
