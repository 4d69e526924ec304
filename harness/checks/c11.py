"""
C11 remote protocol: a loopback HTTP server plays scripted histories of answers and faults; the request log
and the outcome are judged against the script.
"""
import http.server
import json
import threading
import time
import urllib.parse

import numpy as np

import content
import core
import gen
import lab

MAX_REQUESTS = 2000


class Script:
    def __init__(self, answers):
        self.answers = list(answers)  # one by request
        self.log = []
        self.lock = threading.Lock()


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *args):
        pass

    def answer(self):
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        url = urllib.parse.urlsplit(self.path)
        query = urllib.parse.parse_qs(url.query, keep_blank_values=True)
        who = url.path.split("/")[1]
        script = self.server.scripts[who]
        with script.lock:
            i = len(script.log)
            script.log.append(dict(method=self.command, path=url.path, query=query, body=body))
            if i > MAX_REQUESTS:
                code, payload = 500, b"{}"
            else:
                code, payload = script.answers[min(i, len(script.answers) - 1)]
        if code == "drop":
            self.close_connection = True
            return
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        if payload == "cut":
            self.send_header("Content-Length", "1000")
            self.end_headers()
            self.wfile.write(b'{"status": "TERM')
            self.close_connection = True
            return
        self.send_header("Content-Length", str(len(payload)))
        self.end_headers()
        self.wfile.write(payload)

    do_GET = do_POST = do_PUT = do_DELETE = do_HEAD = answer


SERVER = []


def server():
    if not SERVER:
        class Server(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

        s = Server(("127.0.0.1", 0), Handler)
        s.scripts = {}
        threading.Thread(target=s.serve_forever, daemon=True).start()
        SERVER.append(s)
    return SERVER[0]


TOKENS = ["", "none", "abc", "a b", "é&x=1", "100%", "#frag", "+plus+", "/slash?", "t" * 200, "日本"]
JOBS = ["123", 7, 0, "job-1", "5f1a-uu_id.3", "A" * 60]


def plan(rng, result):
    """A scripted history: (answers, outcome). outcome: ('result', json) / ('raise', test, label)"""
    job = JOBS[rng.integers(len(JOBS))]
    n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 130, 400, 1200], p=[0.1, 0.15, 0.15, 0.15, 0.15, 0.1, 0.1, 0.055, 0.025, 0.005, 0.005, 0.01]))
    waits = []
    mode = rng.integers(4)
    for k in range(n):
        if mode == 0:
            st = "QUEUED"
        elif mode == 1:
            st = "COMPUTING"
        elif mode == 2:
            st = "QUEUED" if k < n // 2 else "COMPUTING"
        else:
            st = ["QUEUED", "COMPUTING"][rng.integers(2)]
        a = dict(job=job, status=st)
        if st == "QUEUED" or rng.random() < 0.5:
            a["progress"] = int(rng.integers(0, 12))
        waits.append(a)
    first = dict(job=job, status=["QUEUED", "COMPUTING"][int(rng.random() < 0.2)], progress=int(rng.integers(0, 12)))
    end = rng.random()
    final = dict(job=job, status="TERMINATED", result=result)
    if rng.random() < 0.3:
        final["progress"] = 0
    ok = lambda d: (200, json.dumps(d).encode())
    seq = [ok(first)] + [ok(a) for a in waits]
    if end < 0.03:  # finished at once
        return job, [ok(dict(final, progress=0))], ("result", result)
    if end < 0.4:
        return job, seq + [ok(final)], ("result", result)
    if end < 0.55:
        msg = ["boom", "Solver é error", "", "x" * 300, "100%% of %s"][rng.integers(5)]
        bad = dict(job=job, status="ERROR", message=msg)
        if rng.random() < 0.4:
            bad["result"] = result
        if rng.random() < 0.2:  # at once
            return job, [ok(dict(bad, progress=1))], ("server", msg)
        return job, seq + [ok(bad)], ("server", msg)
    # a fault at any request, the first included
    at = int(rng.integers(0, len(seq) + 1))
    seq = (seq + [ok(final)])[:at]
    body = json.dumps(dict(final, progress=1)).encode() if rng.random() < 0.7 else json.dumps(dict(first)).encode()
    if end < 0.9:
        code = int(rng.choice([404, 403, 500]))
        return job, seq + [(code, body)], ("io" if code == 500 else "value", code)
    what = rng.integers(4)
    if what == 0:
        return job, seq + [("drop", None)], ("any", "connection closed")
    if what == 1:
        return job, seq + [(200, "cut")], ("any", "answer cut")
    if what == 2:
        return job, seq + [(int(rng.choice([502, 503, 504, 401])), b"<html>gateway</html>")], ("any", "not json")
    return job, seq + [ok(dict(job=job, status="CANCELLED", progress=0))], ("any", "unknown status")


def noisy(rng, data):
    """Result JSON with other numbers, so that only the server knows them."""
    if isinstance(data, dict):
        return {k: (v if k == "benchmark" else noisy(rng, v)) for k, v in data.items()}
    if isinstance(data, list):
        return [noisy(rng, v) for v in data]
    if isinstance(data, float):
        return data + float(np.round(rng.uniform(0, 5), 3))
    return data


def play(ctx, rng, optim, who, study, spec, template, token):
    from hadar.optimizer.domain.output import Result

    result = noisy(rng, template)
    job, answers, outcome = plan(rng, result)
    script = Script(answers)
    server().scripts[who] = script
    before = content.snapshot(study)
    label = "%d answers then %s" % (len(answers), outcome[0])
    got = error = None
    try:
        got = optim.solve(study)
    except Exception as e:
        error = e
    return dict(script=script, job=job, answers=answers, outcome=outcome, result=result, got=got, error=error, before=before,
                study=study, spec=spec, token=token, who=who, label=label)


def judge(ctx, p):
    from hadar import Study
    from hadar.optimizer.domain.output import Result

    log, outcome, error = p["script"].log, p["outcome"], p["error"]
    # -- requests
    ctx.check(len(log) == len(p["answers"]), "%d requests instead of %d (%s)" % (len(log), len(p["answers"]), p["label"]),
              log=[(r["method"], r["path"]) for r in log], outcome=repr(outcome))
    for i, r in enumerate(log):
        want = ("POST", "/%s/api/v1/study" % p["who"]) if i == 0 else ("GET", "/%s/api/v1/result/%s" % (p["who"], p["job"]))
        ctx.check((r["method"], r["path"]) == want, "request %d is %s instead of %s" % (i, (r["method"], r["path"]), want))
        token = r["query"].get("token", [""])
        ctx.check(token == [p["token"]], "request %d has token %r instead of %r" % (i, token, p["token"]))
        ctx.ev("requests_observed")
    sent = json.loads(log[0]["body"].decode())
    ctx.check(sent == json.loads(p["before"]), "study sent is not the study")
    copy = Study.from_json(sent)
    ctx.check(copy == p["study"], "study sent is not the study")
    content.compare(ctx, copy, p["spec"], "study sent")
    ctx.check(content.snapshot(p["study"]) == p["before"], "solving remotely changed the study")
    # -- outcome
    said = "%s: %s" % (type(error).__name__, str(error)[:200]) if error is not None else "a result"
    if outcome[0] == "result":
        ctx.check(error is None, "server ended well but %s is raised (%s)" % (said, p["label"]))
        want = Result.from_json(json.loads(json.dumps(p["result"])))
        ctx.check(p["got"] == want and json.dumps(p["got"].to_json()) == json.dumps(want.to_json()), "result is not what the server sent")
        ctx.ev("results_returned")
    else:
        ctx.check(error is not None, "a result is returned although %s" % (outcome,), label=p["label"])
        if outcome[0] == "value":
            ctx.check(isinstance(error, ValueError) and not isinstance(error, IOError), "code %d raises %s instead of ValueError" % (outcome[1], said))
        elif outcome[0] == "io":
            ctx.check(isinstance(error, IOError) and not isinstance(error, ValueError), "code %d raises %s instead of IOError" % (outcome[1], said))
        elif outcome[0] == "server":
            ctx.check(type(error).__name__ == "ServerError" and outcome[1] in str(error), "job in error raises %s instead of the server error" % said)
        ctx.ev("errors_raised_%s" % outcome[0])
    ctx.seen(outcome[0], str(outcome[1])[:20] if outcome[0] != "result" else "", len(p["answers"]), p["token"],
             tuple(json.loads(a[1]).get("status") if isinstance(a[1], bytes) and a[1][:1] == b"{" else str(a[0]) for a in p["answers"][:8]))


def case(ctx):
    import hadar as hd

    rng = ctx.rng
    core.SLEEP_CAP[0] = 0.001
    try:
        base = "http://127.0.0.1:%d" % server().server_address[1]
        specs = [gen.spec(rng, max_nodes=3, size=0.3, H=int(rng.integers(1, 4)), N=int(rng.integers(1, 4))) for _ in range(2)]
        studies = [gen.build(s) for s in specs]
        core.SLEEP_CAP[0] = None
        templates = [json.loads(json.dumps(lab.solve(ctx, s).to_json())) for s in studies]
        core.SLEEP_CAP[0] = 0.001
        optims = []
        for k in range(2):
            token = TOKENS[rng.integers(len(TOKENS))]
            who = "s%d_%d" % (ctx.index, k)
            optims.append((hd.RemoteOptimizer(url=base + "/" + who, token=token) if token or rng.random() < 0.5
                           else hd.RemoteOptimizer(base + "/" + who), who, token))
        if ctx.index % 4 == 3:
            # several solves at the same time
            out = []
            rngs = [np.random.default_rng(int(rng.integers(1 << 40))) for _ in optims]
            ths = [threading.Thread(target=lambda k=k: out.append(play(ctx, rngs[k], optims[k][0], optims[k][1], studies[k], specs[k], templates[k], optims[k][2])))
                   for k in range(2)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            ctx.check(len(out) == 2, "a concurrent remote solve died")
            for p in out:
                judge(ctx, p)
            ctx.ev("concurrent_pairs")
        else:
            # same optimizers used again and again
            for _ in range(5):
                k, s = int(rng.integers(2)), int(rng.integers(2))
                judge(ctx, play(ctx, rng, optims[k][0], optims[k][1], studies[s], specs[s], templates[s], optims[k][2]))
        ctx.note = dict(tokens=[o[2] for o in optims], studies=[gen.describe(s) for s in specs])
    finally:
        core.SLEEP_CAP[0] = None
        for k in range(2):
            server().scripts.pop("s%d_%d" % (ctx.index, k), None)
