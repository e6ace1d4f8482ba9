"""C41: downloads with generated proxy, exception, certificate and server settings against local origins and a local proxy.

Oracle: which server must have seen the request, and whether it may be trusted, computed from the settings; what the servers
recorded and the answer must agree with it.
"""
import json
import os
import select
import shutil
import socket
import ssl
import subprocess

from hypothesis import strategies as st

from vh import core, distserver, nodejs
from vh.core import Campaign, HarnessError, Violation

ID = "C41"
LEVEL = "exploration"
RULE = "a case is non-trivial when a proxy, an exception list or a CA file is given"

HOSTS = ["127.0.0.1", "127.0.0.1", "localhost", "localhost", "headers.example.test", "a.b.example.test", "example.test"]
NO = [None, None, "127.0.0.1", "localhost", "localhost,127.0.0.1", "example.test", ".example.test", "b.example.test", "example.org", "a.b.example.test, localhost",
      "xexample.test", "headers.example.test", "ple.test", "other.test,,example.test", "example.test.evil", "test"]
CAS = [None, None, None, "A", "A", "B", "AB", "BA", "bundle", "crlf", "empty", "garbage", "missing", "dir", "key", "A-sp ace"]


def cases():
    return st.fixed_dictionaries({
        "tls": st.sampled_from([None, "A", "A", "B", "wronghost", "expired"]), "host": st.sampled_from(HOSTS),
        "proxy": st.sampled_from([None, "up", "up", "up", "up/", "dead", "auth"]), "no": st.sampled_from(NO), "ca": st.sampled_from(CAS),
        "extra": st.booleans(), "how": st.sampled_from(["flag", "flag", "npm"]), "status": st.sampled_from([200, 200, 200, 404, 500, 304]),
        "size": st.sampled_from([0, 1, 10, 5000, 200000])})


def envs():
    return st.fixed_dictionaries({
        "host": st.sampled_from(["127.0.0.1", "localhost", "headers.example.test"]), "proxy": st.sampled_from([None, None, "up", "dead"]),
        "envproxy": st.sampled_from([None, "up", "up", "dead", "other"]), "name": st.sampled_from(["http_proxy", "HTTP_PROXY", "proxy", "PROXY"]),
        "no": st.sampled_from([None, None, "localhost", "127.0.0.1", "example.test", "x"]), "envno": st.sampled_from([None, None, "localhost", "127.0.0.1", "x", "test"]),
        "envname": st.sampled_from(["no_proxy", "NO_PROXY"])})


def certs():
    d = os.path.join(os.environ["VH_SCRATCH"], "certs")
    if os.path.isdir(d):
        return d
    t = d + ".%d" % os.getpid()
    os.makedirs(t)

    def run(*a):
        p = subprocess.run(["openssl"] + list(a), cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise HarnessError("openssl %s: %s" % (a, p.stdout.decode()[-500:]))
    for ca in ("A", "B"):
        run("req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", ca + ".key", "-out", ca + ".pem", "-days", "30",
            "-subj", "/CN=Test CA " + ca)
    for name, ca, san, days in (("sA", "A", None, "20"), ("sB", "B", None, "20"), ("swronghost", "A", "DNS:elsewhere.test", "20"), ("sexpired", "A", None, "-1")):
        san = san or "DNS:localhost,IP:127.0.0.1,DNS:*.example.test,DNS:example.test,DNS:a.b.example.test"
        open(os.path.join(t, "ext"), "w").write("subjectAltName=" + san + "\n")
        run("req", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", name + ".key", "-out", name + ".csr", "-subj", "/CN=x")
        if days == "-1":
            days = ["-not_before", "20200101000000Z", "-not_after", "20200201000000Z"]
            open(os.path.join(t, "index.txt"), "w").close()
            open(os.path.join(t, "ca.cnf"), "w").write("[ca]\ndefault_ca=d\n[d]\ndatabase=index.txt\nnew_certs_dir=.\nrand_serial=yes\ndefault_md=sha256\npolicy=p\n[p]\n")
            run("ca", "-batch", "-config", "ca.cnf", "-cert", "A.pem", "-keyfile", "A.key", "-in", name + ".csr", "-out", name + ".pem", "-startdate", "20200101000000Z",
                "-enddate", "20200201000000Z", "-extfile", "ext", "-subj", "/CN=x", "-notext")
        else:
            run("x509", "-req", "-in", name + ".csr", "-CA", ca + ".pem", "-CAkey", ca + ".key", "-CAcreateserial", "-days", days, "-extfile", "ext", "-out", name + ".pem")
    a, b = open(os.path.join(t, "A.pem")).read(), open(os.path.join(t, "B.pem")).read()
    key = open(os.path.join(t, "A.key")).read()
    for n, text in {"AB": a + b, "BA": b + a, "bundle": "# roots\n\nTest CA B\n=====\n" + b + "\nTest CA A\n====\n" + a + "trailer\n", "crlf": a.replace("\n", "\r\n"),
                    "empty": "", "garbage": "no certificate here\n-----BEGIN NOTHING-----\n", "key": key, "A-sp ace": a}.items():
        open(os.path.join(t, n + ".pem"), "w").write(text)
    os.makedirs(os.path.join(t, "dir.pem"))
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t)
    return d


def setup():
    certs()


class Proxy(distserver.Server):
    """Serves absolute-form requests itself and tunnels CONNECT to the local port of the same number."""

    def answer(self, c, method, target, heads):
        if method != "CONNECT":
            return super().answer(c, method, "/" + target.split("/", 3)[3] if target.count("/") > 2 else "/", heads)
        port = int(target.rsplit(":", 1)[1])
        up = socket.create_connection(("127.0.0.1", port), timeout=10)
        c.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
        try:
            while True:
                r, _, _ = select.select([c, up], [], [], 10)
                if not r:
                    break
                for s in r:
                    data = s.recv(65536)
                    if not data:
                        return False
                    (up if s is c else c).sendall(data)
        finally:
            up.close()
        return False


_s = {}


def servers():
    if _s.get("pid") != os.getpid():
        d = certs()
        _s.clear()
        _s["pid"] = os.getpid()
        _s[None] = distserver.Server()
        for n in ("A", "B", "wronghost", "expired"):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(os.path.join(d, "s" + n + ".pem"), os.path.join(d, "s" + n + ".key"))
            _s[n] = distserver.Server(tls=ctx)
        _s["proxy"] = Proxy()
        _s["proxy2"] = Proxy()
    return _s


def teardown():
    for k, s in _s.items():
        if k != "pid":
            s.close()


def covered(host, no):
    for p in (no or "").split(","):
        p = p.strip().lstrip(".")
        if p and (host == p or host.endswith("." + p)):
            return True
    return False


_version = []


def agent():
    if not _version:
        p = json.load(open(os.path.join(nodejs.REPO, "package.json")))["version"]
        n = subprocess.run([nodejs.NODE, "-v"], stdout=subprocess.PIPE, text=True).stdout.strip()
        _version.append("node-gyp v%s (node %s)" % (p, n))
    return _version[0]


def evaluate(case):
    d = certs()
    s = servers()
    origin, proxy = s[case["tls"]], s["proxy"]
    body = b"x" * case["size"]
    a = {"/v1/file.txt": {"body": body if case["status"] not in (304,) else b"", "status": case["status"]}}
    for k in s:
        if k != "pid":
            s[k].reset(a)
    url = "%s://%s:%d/v1/file.txt" % ("https" if case["tls"] else "http", case["host"], origin.port)
    opts = {}
    if case["proxy"]:
        opts["proxy"] = {"up": proxy.url, "up/": proxy.url + "/", "dead": "http://127.0.0.1:1", "auth": proxy.url.replace("//", "//us%20er:p%40ss@")}[case["proxy"]]
    if case["no"] is not None:
        opts["noproxy"] = case["no"]
    if case["ca"]:
        opts["cafile"] = os.path.join(d, case["ca"] + ".pem")
    argv, env = [], {}
    for k, v in opts.items():
        if case["how"] == "flag":
            argv.append("--%s=%s" % (k, v))
        else:
            env["npm_config_" + k] = v
    r = nodejs.value("download", argv=argv, env=env, url=url, start_env={"NODE_EXTRA_CA_CERTS": os.path.join(d, "A.pem")} if case["extra"] else None)
    direct = not case["proxy"] or covered(case["host"], case["no"])
    seen = {k: [(q["method"], q["target"]) for q in s[k].requests] for k in s if k != "pid" and s[k].requests}
    detail = "\n%s\n%s\nresult: %s\nrequests seen: %s" % (json.dumps(case), url, json.dumps({k: v if k != "text" else len(v) for k, v in r.items()}), seen)

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    trusted = None
    if case["ca"]:
        trusted = {"A": "A", "B": "B", "AB": "AB", "BA": "AB", "bundle": "AB", "crlf": "A", "A-sp ace": "A"}.get(case["ca"], "")
    else:
        trusted = "A" if case["extra"] else ""
    works = True
    if case["ca"] in ("missing", "dir"):
        works = False
        if seen:
            bad("a request was made although the CA file cannot be read", "cafile")
    reach = case["host"] in ("127.0.0.1", "localhost") if direct else case["proxy"] != "dead"
    if not reach:
        works = False
    if case["tls"] and (case["tls"] in ("wronghost", "expired") or case["tls"] not in trusted):
        works = False
    labels = ["direct" if direct else "proxied", "tls:%s" % case["tls"], "ca:%s" % case["ca"], "works" if works else "fails"]
    if works != ("failed" not in r):
        bad("the download %s, expected it to %s" % ("fails" if "failed" in r else "works", "work" if works else "fail"), "works")
    if not r.get("isError", True):
        bad("it fails with something that is no error", "error")
    if works and (r["status"] != case["status"] or r["text"] != body.decode() and case["status"] != 304):
        bad("the answer differs", "answer")
    # who was asked
    name = case["tls"]
    if direct:
        if "proxy" in seen:
            bad("the proxy was asked for a host that is not to be proxied", "proxy")
        if works and len(s[name].requests) != 1:
            bad("the origin saw %d requests" % len(s[name].requests), "origin")
    elif case["ca"] not in ("missing", "dir"):
        if len(s[name].requests) > len(proxy.requests):
            bad("the origin was asked directly", "proxy")
        if case["proxy"] != "dead":
            want = [("CONNECT", "%s:%d" % (case["host"], origin.port))] if name else [("GET", url)]
            if seen.get("proxy") not in (want, [("CONNECT", "%s:%d" % (case["host"], origin.port))]):
                bad("the proxy saw %s, expected %s" % (seen.get("proxy"), want), "proxy")
            if case["proxy"] == "auth":
                import base64
                have = proxy.requests[0]["headers"].get("proxy-authorization")
                if have != "Basic " + base64.b64encode(b"us er:p@ss").decode():
                    bad("the proxy was given the credentials %r" % have, "auth")
        elif seen:
            bad("another server was asked although the proxy is down", "proxy")
    if works:
        q = (s[name] if s[name].requests else proxy).requests[-1]
        if q["headers"].get("user-agent") != agent():
            bad("the request identifies itself as %r" % q["headers"].get("user-agent"), "agent")
        if q["headers"].get("host") != "%s:%d" % (case["host"], origin.port):
            bad("the request is for host %r" % q["headers"].get("host"), "host")
    if not works and name and s[name].requests:
        bad("the request was sent to a server that is not to be trusted", "trust")
    return {"nontrivial": bool(case["proxy"] or case["no"] or case["ca"]), "labels": labels}


def by_env(case):
    s = servers()
    uid, d, binary = nodejs.unprivileged()
    origin, proxy, other = s[None], s["proxy"], s["proxy2"]
    tar = distserver.tarball([["a.h", "file", "x"]], "r")
    n = "node-v8.1.2-headers.tar.gz"
    a = {"/v8.1.2/" + n: {"body": tar}, "/v8.1.2/SHASUMS256.txt": {"body": ("%s  %s\n" % (distserver.sha(tar), n)).encode()}}
    for x in (origin, proxy, other):
        x.reset(a)
    where = {"up": proxy.url, "dead": "http://127.0.0.1:1", "other": other.url}
    proj = os.path.join(d, "p")
    os.makedirs(proj)
    nodejs.own(d, uid)
    argv = ["install", "8.1.2", "--devdir=" + os.path.join(d, "dev"), "--dist-url=http://%s:%d" % (case["host"], origin.port)]
    env = {"HOME": proj, "TMPDIR": d}
    if case["proxy"]:
        argv.append("--proxy=" + where[case["proxy"]])
    if case["no"]:
        argv.append("--noproxy=" + case["no"])
    if case["envproxy"]:
        env[case["name"]] = where[case["envproxy"]]
    if case["envno"]:
        env[case["envname"]] = case["envno"]
    use = case["proxy"] or case["envproxy"]
    if use and covered(case["host"], case["no"] or case["envno"]):
        use = None
    elif use and case["no"] and covered(case["host"], case["envno"]):
        return None     # npm's agent also applies the environment's exceptions; nothing is promised
    r = nodejs.cli(argv, proj, env, uid=uid, binary=binary)
    seen = {k: len(s[k].requests) for k in (None, "proxy", "proxy2")}
    works = use in ("up", "other") if use else case["host"] != "headers.example.test"
    detail = "\n%s\n%s\nrequests seen: %s" % (json.dumps(case), r.text(1200), seen)
    if (r.rc == 0) != works:
        raise Violation("the install %s%s" % ("works" if r.rc == 0 else "fails", detail), sig="works")
    if seen[None] == 2 and use:
        seen[None] = 0      # through the proxy
    want = {None: 2 if works and not use else 0, "proxy": 2 if use == "up" else 0, "proxy2": 2 if use == "other" else 0}
    if seen != want:
        raise Violation("requests seen %s, expected %s%s" % (seen, want, detail), sig="proxy")
    return {"nontrivial": bool(case["proxy"] or case["envproxy"]), "labels": ["use:%s" % use, "works" if works else "fails"]}


CAMPAIGNS = [Campaign("download", cases, evaluate, quick=2400, thorough=60000, shrink_evals=200),
             Campaign("environment", envs, by_env, quick=160, thorough=4000, shrink_evals=60)]
