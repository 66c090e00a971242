"""Daemon, jobs and peers without network, processes or waiting."""

import asyncio
import contextlib
import os

import aiohttp
import yaml

from sx.env import LOG
from sx.proxies import SymStr, unplace

from .common import *


def run(coro, timeout=None):
    """Run a coroutine on a fresh event loop."""
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
                with contextlib.suppress(BaseException):
                    loop.run_until_complete(t)
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def mk_daemon(env, conf=None, peers=None, base=None):
    """A daemon object below env.tmp, not started.  conf: job -> (source,
    schedule name); schedules are given by `schedules`."""
    import backy.daemon

    base = base or env.tmp / "base"
    base.mkdir(exist_ok=True)
    d = backy.daemon.BackyDaemon(env.tmp / "backy.conf", LOG)
    d.base_dir = base
    d.backup_completed_callback = None
    d.peers = peers or {}
    return d


def add_job(env, daemon, name, schedule, source=None, sname=None):
    """Configure (but do not start) a job with the given schedule dict."""
    import backy.daemon.scheduler

    sname = sname or "sched-" + name
    if sname not in daemon.schedules:
        daemon.schedules[sname] = mk_schedule(schedule)
    job = backy.daemon.scheduler.Job(daemon, name, LOG)
    job.configure(
        {"source": source or {"type": "file", "filename": "x"},
         "schedule": sname}
    )
    daemon.jobs[name] = job
    return job


class Peers:
    """Replaces aiohttp.ClientSession: requests are answered by python
    callables, one per peer URL: f(method, path, params, json, headers) ->
    (status, json) or an exception."""

    def __init__(self, env, servers):
        self.env = env
        self.ctx = env.ctx
        self.servers = servers
        self.calls = []  # (url, method, path, params, json)
        peers = self

        class Response:
            def __init__(self, status, js):
                self.status = status
                self._js = js

            async def json(self, **kw):
                return self._js

            async def read(self):
                return b""

            def raise_for_status(self):
                pass

        class Request:
            def __init__(self, coro):
                self.coro = coro

            async def __aenter__(self):
                return await self.coro

            async def __aexit__(self, *a):
                return False

            def __await__(self):
                return self.coro.__await__()

        class Session:
            def __init__(self, base_url=None, *, headers=None, **kw):
                self.url = str(base_url)
                self.headers = dict(headers or {})
                self.closed = False
                self.rfs = kw.get("raise_for_status")

            def _req(self, method, path, params=None, json=None, **kw):
                return Request(
                    self._do(method, str(path), params or {}, json)
                )

            async def _do(self, method, path, params, json):
                for v in params.values():
                    # as in yarl
                    if v is None or isinstance(v, bool):
                        raise TypeError("Invalid variable type")
                if peers.ctx.symbolic:
                    path = unplace(peers.ctx, path)
                peers.calls.append((self.url, method, path, params, json))
                await asyncio.sleep(0)
                r = peers.servers[self.url](
                    method, path, params, json, self.headers
                )
                if asyncio.iscoroutine(r):
                    r = await r
                if isinstance(r, BaseException):
                    raise r
                status, js = r
                if status >= 400 and self.rfs:
                    raise aiohttp.ClientResponseError(
                        None, (), status=status, message="refused"
                    )
                return Response(status, js)

            def get(self, path, **kw):
                return self._req("GET", path, **kw)

            def post(self, path, **kw):
                return self._req("POST", path, **kw)

            def put(self, path, **kw):
                return self._req("PUT", path, **kw)

            def delete(self, path, **kw):
                return self._req("DELETE", path, **kw)

            def request(self, method, path, **kw):
                return self._req(method.upper(), path, **kw)

            async def close(self):
                self.closed = True

            async def __aenter__(self):
                return self

            async def __aexit__(self, *a):
                self.closed = True

        class Connector:
            def __init__(self, *a, **kw):
                pass

            async def close(self):
                pass

        env.p.setattr(aiohttp, "ClientSession", Session)
        env.p.replace(aiohttp.TCPConnector, Connector)


def peer_conf(names):
    return {
        n: {"url": f"http://{n}", "token": f"token-{n}"} for n in names
    }


class Request(dict):
    """What the handlers of the API use of an aiohttp request."""


def api_request(api, method, path, headers=None, query=None, json=None,
                seen=None):
    """Send a request through the application's middlewares and router;
    returns (status, decoded json or None)."""

    async def go():
        from aiohttp.test_utils import make_mocked_request

        url = path
        if query:
            url += "?" + "&".join(f"{k}={v}" for k, v in query.items())
        req = make_mocked_request(method, url, headers={}, app=api.app)
        hs = Headers(headers or {})
        req._cache["headers"] = hs
        async def body(*a, **kw):
            return json
        if seen is not None:
            seen.append(req)
        object.__setattr__(req, "json", body)
        try:
            resp = await api.app._handle(req)
        except aiohttp.web.HTTPException as e:
            return e.status_code, None
        return resp.status, resp

    return go()


class Headers:
    """Case insensitive header table that keeps symbolic values."""

    def __init__(self, d):
        self.d = {k.lower(): v for k, v in d.items()}

    def get(self, k, default=None):
        return self.d.get(str(k).lower(), default)

    def getone(self, k, *a):
        return self.d.get(str(k).lower(), *a)

    def getall(self, k, *a):
        if str(k).lower() in self.d:
            return [self.d[str(k).lower()]]
        if a:
            return a[0]
        raise KeyError(k)

    def __getitem__(self, k):
        return self.d[str(k).lower()]

    def __contains__(self, k):
        return str(k).lower() in self.d


def json_setup(env):
    """Let symbolic values pass through real JSON texts."""
    import json

    if not env.ctx.symbolic:
        return
    from sx.proxies import SymDT, _Sym

    real = json.JSONEncoder.encode
    reg = env.ctx.registry

    def encode(self, o):
        inner = self.default

        def default(x):
            if isinstance(x, _Sym) and not isinstance(x, SymDT):
                reg.append(x)
                return {"!sym": len(reg) - 1}
            return inner(x)

        self.default = default
        return real(self, o)

    env.p.setattr(json.JSONEncoder, "encode", encode)


def decode(ctx, resp):
    """The JSON document of a response."""
    import json

    body = getattr(resp, "body", None)
    if not body:
        return None
    text = body.decode() if isinstance(body, bytes) else str(body)

    def walk(x):
        if isinstance(x, dict):
            if set(x) == {"!sym"}:
                return ctx.registry[x["!sym"]]
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, str):
            return unplace(ctx, x)
        return x

    d = json.loads(text)
    return walk(d) if ctx.symbolic else d


class Server:
    """Another backy server: the real API on a real daemon object."""

    def __init__(self, env, name, token):
        import backy.daemon.api

        self.env = env
        self.name = name
        self.daemon = mk_daemon(env, base=env.tmp / ("srv-" + name))
        self.api = backy.daemon.api.BackyAPI(self.daemon, LOG)
        self.token = token
        self.started = False
        self.requests = []

    def repo(self, name, active=False):
        if active:
            j = add_job(self.env, self.daemon, name, {})
            return j.repository
        r = mk_repo(self.daemon.base_dir / name)
        self.daemon.dead_repositories[name] = r
        return r

    async def __call__(self, method, path, params, json, headers):
        if not self.started:
            await self.api.start()
            await self.api.reconfigure({self.token: "client"}, [], 0)
            self.started = True
        self.requests.append((method, path, params, json))
        status, resp = await api_request(
            self.api, method, path, headers=headers, query=params, json=json
        )
        return status, decode(self.env.ctx, resp)


class VTimer(asyncio.TimerHandle):
    vwhen = 0


class Deadlock(Exception):
    """Every task waits for something that never happens."""


class VLoop(asyncio.SelectorEventLoop):
    """Event loop with virtual time: if nothing is ready the next timer fires
    at once.  Delays may be symbolic.

    on_wait(remaining): called before virtual time passes; a true result means
    that it made something else happen instead."""

    max_waits = 200

    def __init__(self, on_wait=None, executor=None):
        super().__init__()
        self.vexec = executor
        self.elapsed = 0
        self.timers = []
        self.on_wait = on_wait
        self.waits = 0

    def time(self):
        return self.elapsed

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(
            self.elapsed + delay, callback, *args, context=context
        )

    def run_in_executor(self, executor, func, *args):
        if self.vexec is None:
            return super().run_in_executor(executor, func, *args)
        f = self.create_future()
        try:
            f.set_result(
                self.vexec((lambda: func(*args)) if args else func)
            )
        except Exception as e:
            f.set_exception(e)
        return f

    def call_at(self, when, callback, *args, context=None):
        h = VTimer(0, callback, args, self, context)
        h.vwhen = when
        self.timers.append(h)
        return h

    def _run_once(self):
        if not self._ready:
            self.timers = [h for h in self.timers if not h._cancelled]
            if not self.timers:
                raise Deadlock()
            first = self.timers[0]
            for h in self.timers[1:]:
                if h.vwhen < first.vwhen:
                    first = h
            self.waits += 1
            if self.waits > self.max_waits:
                raise Deadlock("too many waits")
            if self.on_wait and self.on_wait(first.vwhen - self.elapsed):
                if not self._ready:
                    raise Deadlock("nothing happened")
            else:
                if first.vwhen > self.elapsed:
                    self.elapsed = first.vwhen
                self.timers.remove(first)
                self._ready.append(first)
        super()._run_once()


def vrun(coro_fn, on_wait=None, executor=None):
    """Run coro_fn(loop) in virtual time; executor: called with the functions
    that would be run by threads."""
    loop = VLoop(on_wait, executor)
    as_completed = asyncio.as_completed

    def ordered(fs, **kw):
        # the original starts its tasks in the order of their addresses
        return as_completed([asyncio.ensure_future(f) for f in fs], **kw)

    asyncio.as_completed = ordered
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro_fn(loop))
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop.on_wait = None
            loop.timers = []
            with contextlib.suppress(BaseException):
                loop.run_until_complete(_settle(loop))
        finally:
            asyncio.as_completed = as_completed
            asyncio.set_event_loop(None)
            loop.close()


async def _settle(loop):
    for i in range(5):
        await asyncio.sleep(0)
