"""Downloading fetches every listed file once and never overwrites."""

import gzip
import io
import json
import os
from urllib.parse import quote, unquote, urlsplit
from xml.sax.saxutils import quoteattr

import numpy as np
from hypothesis import strategies as st

from wv import case
from wv.case import Violation

ID = "D01"
TECHNIQUE = "property-based testing: generated data sets behind a stand-in for the network, injected server faults, model of DOI spellings"
CASES = {"quick": 1600, "thorough": 40000}
RULE = (
    "one case = a generated data set (nested catalogue, extra files, transfer encodings, redirects) served by a stand-in below "
    "requests, downloaded by DOI or case name into a generated working directory, possibly with a fault at one request, plus "
    "a handful of DOI spellings; non-trivial when files are stored, a fault is injected or the folder exists"
)
ASSUMPTIONS = [
    "files of one data set have distinct names", "DOI suffixes use the characters Crossref recommends (documented regular expression)",
    "the 4TU interface is as the code documents it (articles endpoint, custom field Data Link, file list)",
]

UUID = "f9572240-f179-4338-9e1b-82c5598529e2"
CASES_KNOWN = {  # as documented
    "example-input-volta": "bbe10a2a-39dc-4098-a69f-0f677d06ecdd",
    "example-input-eiffel": UUID,
}
SUFFIX = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._;()/:"
NAMECHARS = "abcxyzABC0189_-.+ é"
FAULTS = [404, 500, 503, 403, "refused", "cut", "garbage", "timeout"]


@st.composite
def filename(draw):
    base = draw(st.text(NAMECHARS, min_size=1, max_size=12)).strip(" .") or "a"
    return base + draw(st.sampled_from([".nc", ".nc", ".yaml", "", ".tar.gz", ".html", ".xml"]))


@st.composite
def body(draw):
    return {
        "n": draw(st.sampled_from([0, 1, 17, 1000, 70000, 1048576, 1048577, 2500000])),
        "seed": draw(st.integers(0, 99)),
        "text": draw(st.sampled_from(["random", "random", "gzip", "html", "crlf"])),
        "encode": draw(st.sampled_from(["none", "none", "gzip", "no-length"])),
        "redirect": draw(st.integers(0, 6)) == 0,
    }


@st.composite
def doi(draw):
    """A spelling and what it means: (text, prefix, suffix), prefix None when malformed."""
    prefix = "10." + draw(st.sampled_from(["4121", "5281", "1234", "123456789", "1000", "41210", "0421"]))
    suffix = draw(st.one_of(
        st.sampled_from([UUID, UUID + ".v1", UUID + ".v12", "zenodo.123", "a/b/c", "(x)y;z:1"]),
        st.text(SUFFIX, min_size=1, max_size=20),
    ))
    head = draw(st.sampled_from(["", "https://doi.org/", "http://doi.org/", "doi.org/", "http://dx.doi.org/", "doi:", "https://www.doi.org/", "DOI: ", "HTTPS://DOI.ORG/"]))
    how = draw(st.integers(0, 11))
    if how < 8:
        return [head + prefix + "/" + suffix, prefix, suffix]
    bad = draw(st.sampled_from([
        prefix, prefix + "/", suffix.replace("10.", ""), "", "10.123/" + suffix, "10.1234567890/" + suffix, "11.4121/" + suffix,
        "10/4121/" + suffix, "10x4121/" + suffix, "110.4121/" + suffix, "10.4121/" + suffix + " x", "10.4121/" + suffix + "#a?b",
        "10.abcd/" + suffix, "10.4121\\" + suffix.replace("/", "\\"), "104121/" + suffix,
    ]))
    inner = bad.split("/", 1)[-1]
    if "10." in inner or "10." in suffix:
        return ["10.12/abc", None, None]
    return [draw(st.sampled_from(["", head])) + bad, None, None]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(0, 6))
    m = draw(st.integers(0, 3))
    names = draw(st.lists(filename(), min_size=n + m, max_size=n + m, unique_by=str.lower))
    return {
        "mode": draw(st.sampled_from(["cli", "cli", "api", "api", "api", "doi-only"])),
        "case": draw(st.sampled_from(sorted(CASES_KNOWN))),
        "version": draw(st.sampled_from(["", ".v1", ".v2", ".v10"])),
        "head": draw(st.sampled_from(["", "https://doi.org/", "doi.org/", "doi:"])),
        "name": draw(st.sampled_from(["data", "my data", "dätä", "x.y"])),
        "files": [[names[k], draw(body()), draw(st.integers(0, 3))] for k in range(n)],
        "extra": [[names[n + k], draw(body())] for k in range(m)],
        "services": draw(st.sampled_from(["compound", "plain", "http-last"])),
        "link": draw(st.sampled_from(["first", "middle", "last"])),
        "fault": draw(st.sampled_from([None, None, "api", "catalog", "file", "extra", "api2"])),
        "kind": draw(st.sampled_from(FAULTS)),
        "which": draw(st.integers(0, 20)),
        "exists": draw(st.sampled_from([None] * 9 + ["empty", "full", "file", "link"])),
        "clutter": draw(st.booleans()),
        "provider": draw(st.sampled_from(["10.4121"] * 9 + ["10.5281", "10.1234"])),
        "dois": draw(st.lists(doi(), min_size=3, max_size=8)),
    }


# ------------------------------------------------------------------ the stand-in for the network


def content(b):
    rng = np.random.default_rng(b["seed"])
    data = rng.bytes(b["n"])
    if b["text"] == "html":
        data = b"<html><body>not an error</body></html>" + data
    elif b["text"] == "crlf":
        data = b"a: 1\r\nb: 2\n\r" * (b["n"] // 12)
    elif b["text"] == "gzip":
        data = gzip.compress(data[:5000], mtime=0)
    return data


class Net:
    """Answers requests below the requests package; anything else is refused."""

    def __init__(self):
        self.pages = {}  # url -> (status, headers, body)
        self.seen = []
        self.faults = {}  # url -> list of faults by occurrence (None = fine), last one repeats

    def add(self, url, data, ctype="application/octet-stream", encode="none", status=200, headers=None):
        h = {"Content-Type": ctype}
        if encode == "gzip":
            data = gzip.compress(data, mtime=0)
            h["Content-Encoding"] = "gzip"
        if encode != "no-length":
            h["Content-Length"] = str(len(data))
        h.update(headers or {})
        self.pages[self.norm(url)] = (status, h, data)

    @staticmethod
    def norm(url):
        u = urlsplit(url)
        return f"{u.scheme}://{u.netloc}{quote(unquote(u.path), safe='/+')}"

    def send(self, adapter, request, **kw):
        import requests
        import urllib3

        url = self.norm(request.url)
        k = sum(1 for u in self.seen if u == url)
        self.seen.append(url)
        plan = self.faults.get(url)
        fault = plan[min(k, len(plan) - 1)] if plan else None
        if fault == "refused":
            raise requests.ConnectionError("connection refused", request=request)
        if fault == "timeout":
            raise requests.Timeout("timed out", request=request)
        if url in self.pages:
            status, headers, data = self.pages[url]
        else:
            status, headers, data = 404, {"Content-Type": "text/html"}, b"<html>no such page</html>"
        headers = dict(headers)
        if isinstance(fault, int):
            status, headers, data = fault, {"Content-Type": "text/html"}, b"<html>error page</html>"
        elif fault == "cut":
            headers.setdefault("Content-Length", str(len(data)))
            headers["Content-Length"] = str(int(headers["Content-Length"]) + 10)
        elif fault == "garbage":
            headers, data = {"Content-Type": "text/plain"}, b"<<<{{{ not what you want"
        raw = urllib3.HTTPResponse(
            body=io.BytesIO(data), headers=headers, status=status, preload_content=False, request_method=request.method, reason="x"
        )
        return adapter.build_response(request, raw)


def install(net):
    from requests.adapters import HTTPAdapter

    HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)


def dataset_xml(files, services):
    http = '<service name="http" serviceType="HTTPServer" base="/thredds/fileServer/"/>'
    dap = '<service name="odap" serviceType="OPENDAP" base="/thredds/dodsC/"/>'
    inner = {"compound": dap + http, "plain": http + dap, "http-last": dap + http}[services]
    svc = f'<service name="all" serviceType="Compound" base="">{inner}</service>' if services != "plain" else inner
    name = "all" if services != "plain" else "http"
    levels = {}
    for path, depth in files:
        levels.setdefault(depth, []).append(path)

    def entries(depth):
        s = "".join(f'<dataset name={quoteattr(p.split("/")[-1])} ID={quoteattr(p)} urlPath={quoteattr(p)}><serviceName>{name}</serviceName></dataset>' for p in levels.get(depth, []))
        if any(d > depth for d in levels):
            s += f'<dataset name="level {depth}">{entries(depth + 1)}</dataset>'
        return s

    return (
        '<?xml version="1.0" encoding="UTF-8"?><catalog xmlns="http://www.unidata.ucar.edu/namespaces/thredds/InvCatalog/v1.0" '
        f'name="data">{svc}<dataset name="top"><metadata inherited="true"><serviceName>{name}</serviceName></metadata>{entries(0)}</dataset></catalog>'
    ).encode()


def serve(spec, uuid):
    net = Net()
    api = f"https://data.4tu.nl/v2/articles/{uuid}"
    link = f"https://opendap.4tu.nl/thredds/catalog/data2/{uuid}/catalog.html"
    want, urls = {}, {"file": [], "extra": []}
    listing = []
    for k, (name, b, depth) in enumerate(spec["files"]):
        path = "data2/" + "sub/" * depth + name
        url = f"https://opendap.4tu.nl/thredds/fileServer/{path}"
        want[name] = content(b)
        put(net, url, want[name], b)
        urls["file"].append(net.norm(url))
        listing.append((path, depth))
    net.add(link.replace(".html", ".xml"), dataset_xml(listing, spec["services"]), "application/xml")
    net.add(link, b"<html>catalogue for people</html>", "text/html")
    extra = []
    for k, (name, b) in enumerate(spec["extra"]):
        url = f"https://data.4tu.nl/file/{uuid}/{k}-download"
        want[name] = content(b)
        put(net, url, want[name], b)
        urls["extra"].append(net.norm(url))
        extra.append({"name": name, "download_url": url, "id": k, "size": len(want[name])})
    fields = [{"name": "Contributors", "value": "x"}, {"name": "Format", "value": ["y"]}]
    at = {"first": 0, "middle": 1, "last": 2}[spec["link"]]
    fields.insert(at, {"name": "Data Link", "value": [link]})
    net.add(api, json.dumps({"custom_fields": fields, "files": extra, "title": "t"}).encode(), "application/json")
    urls["api"] = [net.norm(api)]
    urls["catalog"] = [net.norm(link.replace(".html", ".xml"))]
    return net, want, urls


def put(net, url, data, b):
    if b["redirect"]:
        other = url.replace("https://", "https://store.")
        net.add(url, b"<html>moved</html>", "text/html", status=302, headers={"Location": quote(other, safe=":/+%")})
        url = other
    net.add(url, data, encode=b["encode"])


# ------------------------------------------------------------------ running


def listing(root):
    res = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            key = os.path.relpath(p, root)
            if os.path.islink(p):
                res[key] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                res[key] = None
            else:
                with open(p, "rb") as f:
                    res[key] = f.read()
    return res


def check_dois(env, dois):
    from wam2layers.download import download_from_doi, parse_doi

    for text, prefix, suffix in dois:
        try:
            got = tuple(parse_doi(text))
        except ValueError:
            got = None
        except Exception as e:
            raise Violation(f"parse_doi({text!r}) ends in {type(e).__name__}: {e}")
        want = None if prefix is None else (prefix, suffix)
        if got != want:
            raise Violation(f"parse_doi({text!r}) gives {got}, expected {want or 'ValueError'}")
        if prefix != "10.4121":
            try:
                download_from_doi(text, "never")
            except (ValueError, NotImplementedError):
                pass
            else:
                raise Violation(f"download_from_doi({text!r}) ends normally")
            if os.path.exists("never"):
                raise Violation(f"download_from_doi({text!r}) made a folder")
    env.label("dois")


def run(spec, env):
    d = env.dir()
    os.chdir(d)
    env.label(spec["mode"])
    uuid = CASES_KNOWN[spec["case"]]
    net, want, urls = serve(spec, uuid)
    install(net)
    check_dois(env, spec["dois"])
    if net.seen:
        raise Violation(f"unusable DOIs led to requests {net.seen[:3]}")
    if spec["mode"] == "doi-only":
        env.nontrivial = any(p is None for _, p, _ in spec["dois"])
        return
    name = spec["case"] if spec["mode"] == "cli" else spec["name"]
    provider = "10.4121" if spec["mode"] == "cli" else spec["provider"]

    target = os.path.join(d, name)
    if spec["clutter"]:
        for n in list(want)[:2]:
            with open(os.path.join(d, n), "w") as f:
                f.write("mine")
    if spec["exists"] == "empty":
        os.mkdir(target)
    elif spec["exists"] == "full":
        os.mkdir(target)
        for n in ["keep", *list(want)[:1]]:
            with open(os.path.join(target, n), "w") as f:
                f.write("mine")
    elif spec["exists"] == "file":
        with open(target, "w") as f:
            f.write("mine")
    elif spec["exists"] == "link":
        os.mkdir(os.path.join(d, "real"))
        os.symlink("real", target)

    fault = spec["fault"] if urls.get((spec["fault"] or "").rstrip("2")) else None
    if fault:
        pool = urls[fault.rstrip("2")]
        url = pool[spec["which"] % len(pool)]
        kind = spec["kind"]
        if fault in ("file", "extra"):
            if kind in ("garbage", 403, 503):
                kind = "cut"
            if kind == "cut" and net.pages[url][0] == 302:
                url = net.norm(net.pages[url][1]["Location"])
        env.label(f"{fault}:{kind}")
        net.faults[url] = [None, kind] if fault == "api2" else [kind]
    before = listing(d)
    if spec["mode"] == "cli":
        r = case.cli(["download", name], d)
        failed, text = r.code != 0, r.describe()
        if r.code == 0 and r.exc is not None:
            raise Violation(f"download exits normally after {text}")
    else:
        from wam2layers.download import download_from_doi

        try:
            download_from_doi(f"{spec['head']}{provider}/{uuid}{spec['version']}", name)
            failed, text = False, ""
        except Exception as e:
            failed, text = True, f"{type(e).__name__}: {e}"
    after = listing(d)

    if provider != "10.4121":
        env.label("other-provider")
        if not failed or net.seen or after != before:
            raise Violation(f"provider {provider}: failed={failed}, requests {net.seen[:2]}, new {sorted(set(after) - set(before))}")
        return
    if spec["exists"]:
        env.nontrivial = True
        env.label("exists=" + spec["exists"])
        if not failed:
            raise Violation(f"download into the existing {name} ({spec['exists']}) ends normally")
        if after != before:
            bad = sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0))
            raise Violation(f"download into the existing {name} changed {bad[:5]}")
        if net.seen:
            raise Violation(f"download into the existing {name} made requests {net.seen[:3]}")
        return
    inside = {os.path.relpath(k, name): v for k, v in after.items() if k.startswith(name + os.sep)}
    outside = {k: v for k, v in after.items() if k != name and not k.startswith(name + os.sep)}
    if outside != before:
        bad = sorted(k for k in set(outside) | set(before) if outside.get(k, 0) != before.get(k, 0))
        raise Violation(f"download changed {bad[:5]} outside of {name}")
    hit = fault and any(
        u == url and (fault != "api2" or sum(1 for x in net.seen if x == url) > 1) for u in net.seen for url in net.faults
    )
    if hit:
        env.nontrivial = True
        env.label(f"fault={fault}", f"kind={kind}")
        if not failed:
            raise Violation(f"download ends normally although {list(net.faults)[0]} answered with {kind}")
        return
    if fault and fault != "api2":
        raise Violation(f"{list(net.faults)[0]} was never requested")
    if failed:
        raise Violation(f"download failed: {text}; requests {net.seen[-3:]}")
    if inside != want:
        missing = sorted(set(want) - set(inside))
        other = sorted(set(inside) - set(want))
        wrong = [k for k in want if k in inside and inside[k] != want[k]]
        raise Violation(f"missing {missing[:4]}, not asked for {other[:4]}, different content {wrong[:4]}")
    for url in urls["file"] + urls["extra"]:
        n = sum(1 for u in net.seen if u == url)
        if n != 1:
            raise Violation(f"{url} was requested {n} times")
    env.label(f"files={min(3, len(want))}")
    env.nontrivial = bool(want)
