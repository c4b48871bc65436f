import itertools
import json
import os
import threading
import time
from urllib.parse import parse_qs, urlsplit

from mc import core

TITLE = "Remote solve follows the job to its end and reports exactly its outcome"
LEVEL = "model_checking"
RULE = ("a scripted server on the loopback interface: every sequence of answers up to the depth bound (POST and each poll: QUEUED with several "
        "progress values, COMPUTING, TERMINATED, ERROR, HTTP 404, 403, 500) is played against the real client; requests received (method, path, "
        "job, token, order, count), payload and outcome are compared with the protocol automaton; then pairs of scripts with one client object, "
        "tokens and urls needing escapes, answers whose fields of other statuses are absent, empty or stale, all kinds of error messages, studies and results of each shape. states: (answers so far) of the automaton; transitions: requests; "
        "traces: scripts played.")
ASSUMPTIONS = ["the pause between polls is skipped by the harness, except in the phase which measures it", "answers of the server are well formed", "HTTP codes 200, 403, 404, 500"]

_real_sleep = time.sleep
slept = []


really = False


def _sleep(s):
    slept.append(s)
    if really:
        _real_sleep(s)


os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
time.sleep = _sleep  # before hadar is imported


class Server:
    """answers come from self.script; requests are recorded"""

    def __init__(self):
        from http.server import BaseHTTPRequestHandler, HTTPServer

        me = self

        class Handler(BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def reply(self, method):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n) if n else b""
                me.seen.append((method, self.path, body))
                me.when.append(time.monotonic())
                if not me.script:
                    code, out = 418, b"one request too many"
                else:
                    code, out = me.script.pop(0)
                self.send_response(code)
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            def do_POST(self):
                self.reply("POST")

            def do_GET(self):
                self.reply("GET")

            def do_PUT(self):
                self.reply("PUT")

            def do_DELETE(self):
                self.reply("DELETE")

        self.seen, self.script, self.when = [], [], []
        self.http = HTTPServer(("127.0.0.1", 0), Handler)
        self.port = self.http.server_address[1]
        self.thread = threading.Thread(target=self.http.serve_forever, kwargs=dict(poll_interval=0.01), daemon=True)
        self.thread.start()

    def play(self, script):
        self.seen, self.script, self.when = [], list(script), []

    def stop(self):
        self.http.shutdown()
        self.http.server_close()


def encode(sym, job, result, fill=None):
    """symbol of the alphabet -> (code, body); fill: fields present in every answer whatever its status"""
    k = sym[0]
    if k == "http":
        return sym[1], b"" if sym[1] == 404 else b"<html>no json here</html>"
    d = dict({k: (result if v == "stale" else v) for k, v in (fill or {}).items()}, job=job)
    if k == "Q":
        d.update(status="QUEUED", progress=sym[1])
    elif k == "C":
        d.update(status="COMPUTING", progress=0)
    elif k == "T":
        d.update(status="TERMINATED", result=result, progress=0)
    elif k == "E":
        d.update(status="ERROR", message=sym[1], progress=0)
    return 200, json.dumps(d).encode()


NONTERM = [("Q", 3), ("Q", 0), ("C",)]
TERM = [("T",), ("E", "disk is full"), ("http", 404), ("http", 403), ("http", 500)]


def run(ctx):
    import hadar as hd
    from hadar.optimizer.domain.input import Study
    from mc import dump, spec as S, synth, analysis as A

    def content(c, label, srv, script, call, study, url_path, job, token, want_result, fill=None):
        """play one script and judge everything"""
        before = dump.study(study)
        srv.play([encode(s, job, want_result.to_json(), fill) for s in script])
        out = err = None
        with core.watchdog(60, "remote solve, script %s" % (script,)):
            try:
                out = call(study)
            except core.Hang:
                raise
            except Exception as e:
                err = e
        last = script[-1]
        # requests
        c.check(len(srv.seen) == len(script), "%d requests instead of %d (%s): %s" % (len(srv.seen), len(script), label, [(m, p) for m, p, _ in srv.seen][:8]))
        for i, (m, p, body) in enumerate(srv.seen):
            u = urlsplit(p)
            w = ("POST", url_path + "/api/v1/study") if i == 0 else ("GET", url_path + "/api/v1/result/%s" % job)
            c.check((m, u.path) == w, "request %d is %s %s instead of %s (%s)" % (i, m, u.path, w, label))
            q = parse_qs(u.query, keep_blank_values=True)
            c.check(q == {"token": [token]}, "request %d has query %s instead of token %r (%s)" % (i, q, token, label))
            if i == 0:
                sent = json.loads(body.decode())
                d = dump.diff(dump.study(Study.from_json(sent)), before)
                c.check(d is None, "study received by the server differs: %s (%s)" % (d, label))
            c.add("transitions")
        # outcome
        if last[0] == "T":
            c.check(err is None, "solve raises %r although job terminated (%s)" % (err, label))
            d = dump.diff(dump.result(out), dump.result(want_result))
            c.check(d is None, "result differs from the one of the server: %s (%s)" % (d, label))
        elif last[0] == "E":
            c.check(err is not None, "solve returns %r although job failed (%s)" % (out, label))
            c.check(last[1] in str(err), "error %r does not tell the message of the server %r (%s)" % (err, last[1], label))
        else:
            kind = {404: ValueError, 403: ValueError, 500: IOError}[last[1]]
            c.check(isinstance(err, kind), "HTTP %d gives %r instead of %s (%s)" % (last[1], err if err is not None else out, kind.__name__, label))
            import requests
            c.check(not isinstance(err, requests.exceptions.RequestException), "HTTP %d surfaces as a raw transport error %r (%s)" % (last[1], err, label))
        d = dump.diff(dump.study(study), before)
        c.check(d is None, "study altered: %s (%s)" % (d, label))
        c.add("traces")

    def simple():
        sp = dict(h=2, n=1, conv={}, nets={"default": {"a": S.node(cons=[("load", 3, 4)], prod=[("gen", 1, [5, 6])])}})
        return sp, S.build(sp), synth.result_of(sp)

    depth = ctx.pick(5, 7)
    scripts = [[t] for t in TERM]
    layer = [[n] for n in NONTERM]
    for _ in range(depth):
        scripts += [l + [t] for l in layer for t in TERM]
        layer = [l + [n] for l in layer for n in NONTERM]

    # phase 1: every script
    def one(c, part):
        srv = Server()
        try:
            sp, st, res = simple()
            for script in part:
                opt = hd.RemoteOptimizer(url="http://127.0.0.1:%d" % srv.port, token="tok")
                content(c, "script %s" % (script,), srv, script, opt.solve, st, "", 123, "tok", res)
                for k in range(1, len(script) + 1):
                    c.distinct.add(repr(script[:k]))
            c.sample(script, cap=3)
        finally:
            srv.stop()

    core.fan_out(ctx, [scripts[i::32] for i in range(32)], one)

    # phase 2: two jobs one after the other with one client: the second does not depend on the first
    short = [[t] for t in TERM] + [[n, t] for n in NONTERM for t in TERM]

    def pairs(c, a):
        srv = Server()
        try:
            sp, st, res = simple()
            for b in short:
                opt = hd.RemoteOptimizer(url="http://127.0.0.1:%d" % srv.port, token="tok")
                content(c, "first script %s" % (a,), srv, a, opt.solve, st, "", "job-1", "tok", res)
                content(c, "script %s after %s" % (b, a), srv, b, opt.solve, st, "", "job-2", "tok", res)
                c.distinct.add(repr((a, b)))
        finally:
            srv.stop()

    core.fan_out(ctx, short if ctx.thorough else short[::2], pairs)

    # phase 3: urls, tokens, jobs, long queues, studies
    def shapes(c, t):
        path, token, job = t
        srv = Server()
        try:
            for label, sp in [("rich", A.rich(2, 3))] + [("subset-%d" % i, sp) for i, sp in enumerate(synth.subset_specs(1, 2)) if i % 23 == 5]:
                st, res = S.build(sp), synth.result_of(sp)
                url = "http://127.0.0.1:%d%s" % (srv.port, path)
                opt = hd.RemoteOptimizer(url=url) if token is None else hd.RemoteOptimizer(url=url, token=token)
                for script in ([("Q", 9)] * 6 + [("C",)] * 5 + [("T",)], [("T",)], [("Q", 1), ("E", "unexpected 'x' é")]):
                    content(c, "%s at %s token %r job %r script %s" % (label, url, token, job, script), srv, script, opt.solve, st, path, job, token or "", res)
                c.distinct.add(repr((t, label)))
        finally:
            srv.stop()

    core.fan_out(ctx, list(itertools.product(["", "/hadar", "/a/b"], [None, "", "secret", "a b&c=d/?#é+%"], [0, 123, "6f1c-aa"])) + [("/x", "k", j) for j in ("0012", "A.b_c~d", 10 ** 15, -1, "None", "1.0", "x" * 200)], shapes)

    # phase 3b: the status alone decides: fields which belong to another status may be there, empty or stale
    def forms(c, fill):
        srv = Server()
        try:
            sp, st, res = simple()
            ends = [("T",)] + [("E", m) for m in ("disk is full", "", " ", "two\nlines", "100 %s of %d {0} {", "TERMINATED", "é" * 300, "0")]
            for script in [[e] for e in ends] + [[n, e] for n in NONTERM for e in ends] + [[n, m, e] for n in NONTERM for m in NONTERM for e in ends[:3]]:
                opt = hd.RemoteOptimizer(url="http://127.0.0.1:%d" % srv.port, token="tok")
                content(c, "answers with fields %s, script %s" % (fill, script), srv, script, opt.solve, st, "", 5, "tok", res, fill)
                c.distinct.add(repr((fill, script)))
        finally:
            srv.stop()

    fills = [dict(message=m, result=r) for m in ("", None, "a warning") for r in (None, "stale", {})] + [dict(message=m) for m in ("", None, "a warning")]
    fills += [dict(result=r) for r in (None, "stale")] + [dict(error=None, code=200, id=77, version="1")]
    core.fan_out(ctx, fills, forms)

    # phase 4: the client lets time pass between two polls (genuine pauses here)
    def pauses(c, script):
        global really
        really = True
        srv = Server()
        try:
            sp, st, res = simple()
            opt = hd.RemoteOptimizer(url="http://127.0.0.1:%d" % srv.port)
            content(c, "with genuine pauses, script %s" % (script,), srv, script, opt.solve, st, "", 1, "", res)
            gaps = [b - a for a, b in zip(srv.when[1:], srv.when[2:])]
            c.check(all(g > 0.05 for g in gaps), "polls follow one another without a pause: %s seconds for script %s" % (["%.4f" % g for g in gaps], script))
            c.distinct.add(("pause", repr(script)))
        finally:
            really = False
            srv.stop()

    core.fan_out(ctx, [list(l) + [t] for l in itertools.product(NONTERM[::2], repeat=3) for t in (("T",), ("E", "x"))], pauses)
    ctx.add("states", len(ctx.distinct))
    ctx.notes["poll_depth"] = depth
