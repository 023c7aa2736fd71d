"""C15: dataset downloads are consented, atomic, confined and inert."""
import ast
from urllib.parse import urlparse
from ..common import *
from ..norm import norm
from .c10 import root_name, locals_of

LEVEL = "proof"
TECHNIQUE = "static analysis: effect/typestate analysis of every data-manager constructor (network, file and rename effects with their path conditions), token taint, resolved-name rules"
MIN_OBLIGATIONS = 30
EXPLANATION = ("Every data-manager constructor is analysed symbolically with its download hooks inlined. Each network effect must be unreachable when the archive exists or the user has not agreed "
               "(path conditions evaluated over the finite set of answers), every file effect on a final path must be a rename that follows the completed download outside exception paths, "
               "token-tainted headers must be limited to the token's host and not follow redirects, and no name in the package resolves to an evaluator or unpickler.")
ASSUMPTIONS = ["urlretrieve and an unbounded read() raise when the body is shorter than announced; rename within a directory is atomic",
               "answers are judged on a finite set of representative strings"]

NET = {"urllib.request.urlretrieve", "urllib.request.urlopen", "urllib.request.URLopener", "urllib.request.build_opener", "http.client.HTTPConnection", "http.client.HTTPSConnection",
       "socket.socket", "socket.create_connection", "ftplib.FTP", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "os.system",
       "requests.get", "requests.post", "requests.request", "requests.Session", "httpx.get", "httpx.stream", "urllib3.PoolManager", "huggingface_hub.hf_hub_download", "pooch.retrieve"}
EVIL = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "importlib.import_module", "pickle.load", "pickle.loads", "pickle.Unpickler", "joblib.load", "marshal.load",
        "marshal.loads", "shelve.open", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "pandas.read_pickle", "pandas.eval",
        "os.system", "os.popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "runpy.run_path", "runpy.run_module",
        "code.interact", "torch.load", "tarfile.open", "shutil.unpack_archive", "jsonpickle.decode", "_pickle.loads", "cPickle.loads", "os.execv", "os.execvp", "numexpr.evaluate", "timeit.timeit"}
REFUSE = ("", "n", "N", "no", "No", "x", "q", "nay", "0", "maybe", "any", "\n")
AGREE = ("y", "Y")
TOKEN_HOST = {"huggingface.co"}


# ------------------------------------------------------------- terms

def pathkey(t):
    t = strip(t)
    while True:
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("pathlib.Path", "pathlib.PurePath", "os.fspath", "builtins.str", "os.path.abspath", "pathlib.PosixPath") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "fstr" and len(t.a[0]) == 1 and isinstance(t.a[0][0], T):
            t = t.a[0][0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("__fspath__", "as_posix", "resolve", "absolute", "expanduser") and not t.a[1] and t.a[0].a[0].op == "call":
            t = t.a[0].a[0]
        elif t.op == "conv" and t.a[0] == "str":
            t = t.a[1]
        else:
            return norm(t)


def exists_of(t):
    """path if the boolean term asks whether a path exists."""
    if t.op == "truth":
        t = t.a[0]
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("exists", "is_file") and not t.a[1]:
        return pathkey(t.a[0].a[0])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists") and len(t.a[1]) == 1:
        return pathkey(t.a[1][0])
    return None


class Env:
    """Partial assignment: existing paths, force flag, the user's answer, extra facts."""

    def __init__(self, exists=None, force=None, answer=None, facts=()):
        self.exists, self.force, self.answer = exists or {}, force, answer
        self.facts = set(facts)
        self.memo = {}

    def val(self, t):
        """Concrete value of a string-ish term, or None (wrapped in a tuple when known)."""
        if t.op == "const":
            return (t.a[0],)
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.input":
            return None if self.answer is None else (self.answer,)
        if t.op in ("tuple", "list", "set"):
            vs = [self.val(x) for x in t.a[0]]
            return None if None in vs else (tuple(v[0] for v in vs),)
        if t.op == "call" and t.a[0].op == "attr":
            o = self.val(t.a[0].a[0])
            args = [self.val(x) for x in t.a[1]]
            if t.a[0].a[1] == "startswith" and len(args) == 1 and args[0] is not None and o is None:
                p, whole = prefix(t.a[0].a[0])
                if isinstance(args[0][0], str) and p is not None:
                    if p.startswith(args[0][0]):
                        return (True,)
                    if not args[0][0].startswith(p):
                        return (False,)
                return None
            if o is None or None in args or not isinstance(o[0], str):
                return None
            if t.a[0].a[1] in ("lower", "upper", "strip", "casefold", "startswith", "endswith", "lstrip", "rstrip"):
                try:
                    return (getattr(o[0], t.a[0].a[1])(*[x[0] for x in args]),)
                except Exception:
                    return None
        if t.op == "idx":
            o, i = self.val(t.a[0]), self.val(t.a[1])
            if o and i and isinstance(o[0], str) and isinstance(i[0], int):
                return (o[0][i[0]],) if -len(o[0]) <= i[0] < len(o[0]) else None
            if o and t.a[1].op == "slice" and isinstance(o[0], str):
                b = [self.val(x) for x in t.a[1].a]
                if None not in b:
                    return (o[0][slice(*[x[0] for x in b])],)
        if t.op == "phi":
            c = self.ev(t.a[0])
            if c is not None:
                return self.val(t.a[1] if c else t.a[2])
            a, b = self.val(t.a[1]), self.val(t.a[2])
            return a if a == b else None
        if t.op in ("not", "and", "or", "eq", "truth", "in", "isnone"):
            b = self.ev(t)
            return None if b is None else (b,)
        return None

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = r = self._ev(t)
        return r

    def _ev(self, t):
        if t in self.facts:
            return True
        if not_(t) in self.facts:
            return False
        p = exists_of(t)
        if p is not None:
            return self.exists.get(p)
        if t.op == "const":
            return bool(t.a[0])
        if t.op == "not":
            r = self.ev(t.a[0])
            return None if r is None else not r
        if t.op in ("and", "or"):
            rs = [self.ev(x) for x in t.a]
            if t.op == "and":
                return False if False in rs else (None if None in rs else True)
            return True if True in rs else (None if None in rs else False)
        if t.op == "phi":
            c = self.ev(t.a[0])
            if c is not None:
                return self.ev(t.a[1] if c else t.a[2])
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            return a if a == b else None
        if t.op == "truth":
            x = t.a[0]
            if x.op == "sym" and "force" in x.a[0]:
                return self.force
            v = self.val(x)
            return None if v is None else bool(v[0])
        if t.op == "sym" and "force" in t.a[0]:
            return self.force
        if t.op == "eq":
            a, b = self.val(t.a[0]), self.val(t.a[1])
            return None if a is None or b is None else a[0] == b[0]
        if t.op == "in":
            a, b = self.val(t.a[0]), self.val(t.a[1])
            try:
                return None if a is None or b is None else a[0] in b[0]
            except TypeError:
                return None
        if t.op == "call":
            v = self.val(t)
            return None if v is None else bool(v[0])
        return None

    def path(self, conds):
        rs = [self.ev(c) for c in conds]
        return False if False in rs else (None if None in rs else True)


def prefix(t):
    """(constant prefix of a string term, whether it is the whole string)."""
    if t.op == "const" and isinstance(t.a[0], str):
        return t.a[0], True
    if t.op == "fstr":
        s = ""
        for x in t.a[0]:
            if isinstance(x, str):
                s += x
                continue
            p, whole = prefix(x) if isinstance(x, T) else (None, False)
            if p is None:
                return (s or None), False
            s += p
            if not whole:
                return s, False
        return s, True
    if t.op in ("add", "concat"):
        s = ""
        for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a):
            p, whole = prefix(x)
            if p is None:
                return (s or None), False
            s += p
            if not whole:
                return s, False
        return s, True
    return None, False


# ------------------------------------------------------------- effects

def callee(e):
    fn = e.d.get("fn")
    if not isinstance(fn, T):
        return None
    if fn.op == "ext":
        return fn.a[0]
    if fn.op == "attr":
        return "." + fn.a[1]
    return None


def kwargs(e):
    k = e.d.get("kwargs") or {}
    return k if isinstance(k, dict) else dict(k)


def arg(e, i, name):
    a = e.d.get("args") or ()
    if i < len(a):
        return a[i]
    return kwargs(e).get(name)


def is_net(e):
    c = callee(e)
    if e.kind != "call" or c is None:
        return False
    if c in NET:
        return True
    if c.startswith("pandas.read_") and e.d.get("args"):
        p, _ = prefix(strip(e.d["args"][0]))
        return bool(p) and p.startswith(("http:", "https:", "ftp:"))
    return False


def mode_of(e, i):
    m = arg(e, i, "mode")
    if m is None:
        return "r"
    m = strip(m)
    return m.a[0] if m.op == "const" and isinstance(m.a[0], str) else None


def writes(e):
    """Path written directly by this effect."""
    c = callee(e)
    if e.kind != "call" or c is None:
        return None
    if c == "urllib.request.urlretrieve":
        return arg(e, 1, "filename")
    if c in ("builtins.open", "io.open", "gzip.open", "gzip.GzipFile", "bz2.open"):
        m = mode_of(e, 1)
        return arg(e, 0, "file") if m is None or set(m) & set("wax+") else None
    if c == ".open" and isinstance(e.d["fn"].a[0], T) and "zipfile.ZipFile" not in {x.a[0] for x in walk(e.d["fn"].a[0]) if x.op == "ext"}:
        m = mode_of(e, 0)
        return e.d["fn"].a[0] if m is None or set(m) & set("wax+") else None
    if c in ("zipfile.ZipFile", "zipfile.PyZipFile"):
        m = mode_of(e, 1)
        return arg(e, 0, "file") if m is None or set(m) & set("wax") else None
    if c in (".write_bytes", ".write_text", ".touch"):
        return e.d["fn"].a[0]
    if c in ("shutil.copy", "shutil.copyfile", "shutil.copy2"):
        return arg(e, 1, "dst")
    if c == ".to_csv" and e.d.get("args"):
        return e.d["args"][0]
    return None


def rename(e):
    """(source, destination, atomic) when this effect moves a file."""
    c = callee(e)
    if e.kind != "call" or c is None:
        return None
    if c in ("os.replace", "os.rename", "os.link", "os.symlink"):
        return arg(e, 0, "src"), arg(e, 1, "dst"), True
    if c in ("shutil.move", "os.renames"):
        return arg(e, 0, "src"), arg(e, 1, "dst"), None
    if c in (".replace", ".rename", ".hardlink_to", ".symlink_to") and len(e.d.get("args") or ()) + len(kwargs(e)) == 1:
        o = e.d["fn"].a[0]
        return o, arg(e, 0, "target"), True
    return None


def reads_zip(e):
    if e.kind == "call" and callee(e) in ("zipfile.ZipFile",) and mode_of(e, 1) == "r":
        return arg(e, 0, "file")
    return None


def same_dir(src, dst):
    """Temporary created next to its destination?"""
    for x in walk(strip(src)):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("tempfile."):
            for k, v in x.a[2]:
                if k == "dir":
                    v = norm(strip(v))
                    return v.op == "attr" and v.a[1] == "parent" and pathkey(v.a[0]) is pathkey(dst)
            return False
    return True


def hops(t):
    return {x.a[0] for x in walk(t) if x.op == "ext"}


# ------------------------------------------------------------- rules

def constructor(ctx, c):
    I = Interp(ctx.proj)
    I.disjoin = True
    I, st, o = construct(ctx, c, interp=I)
    q = c.name
    E = I.effects
    finals = []
    for e in E:
        p = reads_zip(e)
        if p is not None and pathkey(p) not in finals:
            finals.append(pathkey(p))
    nets = [(i, e) for i, e in enumerate(E) if is_net(e)]
    moves = [(i, e, rename(e)) for i, e in enumerate(E) if rename(e) is not None and rename(e)[1] is not None and pathkey(rename(e)[1]) in finals]
    ctx.ob("opens-archive", q, True if finals else None, "no archive is opened", c.find("__init__").loc())
    if not finals:
        return
    for i, e in nets:
        # the archive this access serves: the first move after it, else the file it writes itself
        mv = next((m for j, _, m in moves if j > i), None)
        fp = pathkey(mv[1]) if mv else None
        w = writes(e)
        if fp is None and w is not None and pathkey(w) in finals:
            fp = pathkey(w)
        name = f"{q} {callee(e).split('.')[-1]}@{e.stack[-1].split('.')[-1]}"
        for others in (True, False):
            ex = {p: others for p in finals}
            if fp is not None:
                ex[fp] = True
            elif not others:
                continue
            r = Env(exists=ex, force=True, answer="y").path(e.path)
            ctx.ob("only-when-missing", f"{name} others={others}", r is False or (None if r is None and opaque(e) else False), "network access although the archive exists", e.loc)
        ex = {p: False for p in finals}
        for a in REFUSE:
            r = Env(exists=ex, force=False, answer=a).path(e.path)
            ctx.ob("refusal-stops", f"{name} answer={a!r}", r is False or (None if r is None and opaque(e) else False), f"network access although the user answered {a!r}", e.loc)
        r = Env(exists=ex, force=False, answer=None).path([x for x in e.path if not mentions_input(x)])
        ctx.ob("asks-first", name, r is False or any(mentions_input(x) for x in e.path), "network access without asking", e.loc)
        for other in [ex] + ([{p: p is not fp for p in finals}] if fp is not None else []):
            for a in AGREE:
                ctx.ob("consent-accepted", f"{name} {a!r} {sum(other.values())}", Env(exists=other, force=False, answer=a).path(e.path) is not False or duplicate(nets, e, other, a, False),
                       f"answering {a!r} does not start the download", e.loc)
            ctx.ob("force-accepted", f"{name} {sum(other.values())}", Env(exists=other, force=True, answer="").path(e.path) is not False or duplicate(nets, e, other, "", True),
                   "force_download does not start the download", e.loc)
    for e in E:
        if e.kind == "call" and callee(e) == "builtins.input":
            r = Env(exists={p: False for p in finals}, force=True).path(e.path)
            ctx.ob("force-no-prompt", q, r is False, "asks although the download was forced", e.loc)
            r = Env(exists={p: True for p in finals}, force=False).path(e.path)
            ctx.ob("no-prompt-when-present", q, r is False, "asks although the archive exists", e.loc)
    # ---- atomicity
    for i, e in enumerate(E):
        w = writes(e)
        if w is not None:
            k = pathkey(w)
            ok = k not in finals
            ctx.ob("final-path-only-renamed", f"{q} {callee(e).split('.')[-1]}@{e.stack[-1].split('.')[-1]}", ok, f"writes the final archive path directly: {short(w, 120)}", e.loc)
    for i, e in nets:
        if moves:
            ctx.ob("move-after-download", f"{q} {callee(e).split('.')[-1]}@{e.stack[-1].split('.')[-1]}", any(j > i and compatible(e, m) for j, m, _ in moves),
                   "the archive is moved into place before everything was downloaded", e.loc)
    for i, e, (src, dst, atomic) in moves:
        name = f"{q} {callee(e).split('.')[-1]}@{e.stack[-1].split('.')[-1]}"
        if atomic is None:
            ctx.ob("atomic-move", name, same_dir(src, dst), "a move across directories copies and can be interrupted", e.loc)
        ctx.ob("move-after-success", f"{name} handler", e.final == 0 and not any(x.op == "raised" for x in e.path), "the archive is moved into place on a failure path (finally / except)", e.loc)
        before = [(j, n) for j, n in nets if j < i and compatible(n, e)]
        if nets:
            ctx.ob("move-after-download", name, bool(before), "the archive is moved into place before anything was downloaded", e.loc)
        open_ = [w for w in e.withs if feeds(w, src)]
        ctx.ob("move-after-close", name, not open_, "the archive is moved into place while the file is still being written", e.loc)
        using = [x for x in E[:i] if x.kind == "call" and callee(x) and (callee(x) in (".read", "shutil.copyfileobj")) and compatible(x, e)
                 and "urllib.request.urlopen" in hops(strip(x.d["term"]))]
        for n in [x for _, x in before] + using:
            for s in E:
                if s.kind == "swallow" and any(t[1] == s.d["tryid"] for t in n.tries) and not any(t[1] == s.d["tryid"] for t in e.tries):
                    ctx.ob("move-after-success", f"{name} swallowed", False, f"a failure of the download is swallowed ({', '.join(s.d['names'])}) and the file is moved into place", s.loc)
        # complete transfer
        for j in range(i):
            x = E[j]
            if x.kind != "call":
                continue
            c_ = callee(x)
            partial = (c_ == "shutil.copyfileobj" and "urllib.request.urlopen" in hops(strip(x.d["args"][0]))) or \
                (c_ == ".read" and x.d.get("args") and "urllib.request.urlopen" in hops(strip(x.d["fn"].a[0])) and "zipfile.ZipFile" not in hops(strip(x.d["fn"].a[0])))
            if partial and compatible(x, e):
                chk = any(y.kind == "raise" and any(length_test(c2) for c2 in y.path) for y in E[j:i])
                ctx.ob("length-checked", name, chk, "a response read in blocks is moved into place without comparing its length to Content-Length", x.loc)
    for p in finals:
        if nets:
            served = any(pathkey(m[1]) is p for _, _, m in moves) or any(writes(e) is not None and pathkey(writes(e)) is p for e in E)
            ctx.ob("archive-delivered", q, True if served else None, f"no effect delivers {short(p, 80)}")
    # ---- tokens
    for e in E:
        if e.kind not in ("call",):
            continue
        c_ = callee(e) or ""
        bad = [x for x in list(e.d.get("args") or ()) + list(kwargs(e).values()) if isinstance(x, T) and token(x)]
        if not bad:
            continue
        name = f"{q} {c_.split('.')[-1]}"
        if c_ in ("urllib.request.Request",):
            u = arg(e, 0, "url")
            ctx.ob("token-not-in-url", name, not token(u), "the token is part of the URL", e.loc)
            hs = [x for x in bad if x is not u]
            if hs:
                ctx.ob("token-not-redirected", name, False, "headers given to Request follow redirects to other hosts", e.loc)
                host(ctx, name, u, e)
        elif c_ in (".add_header",):
            ctx.ob("token-not-redirected", name, False, "add_header follows redirects to other hosts", e.loc)
            host(ctx, name, url_of(e.d["fn"].a[0]), e)
        elif c_ == ".add_unredirected_header":
            host(ctx, name, url_of(e.d["fn"].a[0]), e)
        elif c_ in NET and not any(x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "urllib.request.Request" for b in bad for x in walk(b)):
            ctx.ob("token-not-in-url", name, False, f"the token is handed to {c_}", e.loc)


def opaque(e):
    return any(x.op in ("unk", "loopout", "mu") for c in e.path for x in walk(c))


def mentions_input(t):
    return any(x.op == "ext" and x.a[0] == "builtins.input" for x in walk(t))


def duplicate(nets, e, ex, a, force):
    """Same call site logged on another path that is taken."""
    return any(n.loc == e.loc and Env(exists=ex, force=force, answer=a).path(n.path) is not False for _, n in nets)


def compatible(a, b):
    return not any(not_(x) in b.path for x in a.path)


def feeds(w, src):
    """Context manager w holds the file that src names."""
    w = strip(w)
    s = set(walk(strip(src)))
    if w in s:
        return True
    if w.op == "call" and w.a[0].op == "ext" and w.a[0].a[0] in ("zipfile.ZipFile", "builtins.open", "io.open") and w.a[1]:
        return pathkey(w.a[1][0]) is pathkey(src)
    if w.op == "call" and w.a[0].op == "attr" and w.a[0].a[1] == "open":
        return pathkey(w.a[0].a[0]) is pathkey(src)
    return False


def length_test(c):
    t = c
    if t.op == "not" and t.a[0].op == "eq":
        t = t.a[0]
    elif t.op not in ("lt", "le"):
        return False
    def hdr(x):
        return any((y.op == "const" and isinstance(y.a[0], str) and y.a[0].lower() == "content-length") or (y.op == "attr" and y.a[1] in ("length", "content_length")) for y in walk(x))
    def size(x):
        return any((y.op == "attr" and y.a[1] in ("tell", "st_size", "getbuffer")) or y.op == "len" or (y.op == "ext" and y.a[0] == "os.path.getsize") or y.op in ("mu", "loopout", "lin", "sumover") for y in walk(x))
    return any(hdr(x) for x in t.a if isinstance(x, T)) and any(size(x) for x in t.a if isinstance(x, T))


def token(t):
    for x in walk(t):
        if x.op == "sym" and "token" in x.a[0].lower():
            return True
        if x.op == "const" and isinstance(x.a[0], str) and x.a[0] in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN"):
            return True
    return False


def url_of(t):
    t = strip(t)
    for x in walk(t):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "urllib.request.Request":
            return x.a[1][0] if x.a[1] else dict(x.a[2]).get("url")
    return None


def host(ctx, name, url, e):
    if url is None:
        ctx.ob("token-host", name, None, "request not found", e.loc)
        return
    for cs, leaf in hoist(strip(url)):
        p, _ = prefix(leaf)
        h = urlparse(p).hostname if p else None
        if h in TOKEN_HOST:
            ctx.ob("token-host", f"{name} {h}", True)
            continue
        env = Env(facts=cs)
        env2 = Env(facts=cs)
        conds = [simplify_under(c, cs) for c in e.path]
        r = env2.path(conds)
        ctx.ob("token-host", f"{name} {h}", True if r is False else (False if h else None), f"the token is sent to {h}", e.loc)


def simplify_under(c, facts):
    for f in facts:
        c = assume(c, f.a[0], False) if f.op == "not" else assume(c, f, True)
    return c


def scan(ctx, m):
    """Names that execute downloaded content, anywhere in the package."""
    for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in c.methods.values()]:
        loc = locals_of(f.node)
        hits = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                r = root_name(n)
                if r is None or r in loc:
                    continue
                q = m.dotted(n)
                if isinstance(n, ast.Name) and (q is None or q == n.id) and n.id in ("eval", "exec", "compile", "__import__") and n.id not in m.funcs and n.id not in m.imports:
                    q = "builtins." + n.id
                if q in EVIL:
                    hits.append((n.lineno, q))
            if isinstance(n, ast.Call):
                if any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in n.keywords):
                    hits.append((n.lineno, "allow_pickle"))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("eval", "query") and not (root_name(n.func) and m.dotted(n.func) in ("ast.literal_eval",)):
                    if isinstance(n.func.value, (ast.Name, ast.Call, ast.Subscript)) and n.args and not isinstance(n.args[0], ast.Constant):
                        hits.append((n.lineno, f".{n.func.attr}"))
        ctx.ob("inert", f.qual, not hits, "; ".join(f"line {l}: {q} can execute downloaded content" for l, q in hits), f.loc())


def readers(ctx, c):
    """Reading methods never touch the network."""
    for k in c.mro():
        for f in k.methods.values():
            if f.name.startswith("_") or f.is_stub:
                continue
            ctx.guard(reader, ctx, c, f)


def reader(ctx, c, f):
    I, st, v = analyse(ctx, f, cls=c)
    bad = [e for e in I.effects if is_net(e)]
    ctx.ob("reading-is-local", f"{c.name}.{f.name}", not bad, "reading accesses the network without consent", bad[0].loc if bad else f.loc())


def check(ctx):
    classes = [c for c in ctx.proj.all_classes() if c.module.name.startswith("irspack.dataset") and not c.module.is_stub]
    for c in classes:
        init = c.find("__init__")
        if init is None:
            continue
        ctx.guard(constructor, ctx, c)
        readers(ctx, c)
    for m in ctx.proj.modules.values():
        if m.name.startswith("irspack.dataset") and not m.is_stub:
            ctx.guard(scan, ctx, m)
