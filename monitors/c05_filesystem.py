"""C05: both filesystem wrappers implement one and the same file store."""

import fnmatch
import os
import stat

from monitors.fs import cloud_fs, local_fs

ID = "C05"
RULE = (
    "a case is a random sequence of 15-60 filesystem operations (write_text, open r/w/a/rb/wb "
    "with encodings, error handlers, buffering and newline modes, unlink with/without missing_ok, mkdir, exists, is_file, "
    "is_dir, glob with 4 patterns, name, parent, joinpath) over a small set of paths, applied to "
    "a wrapper (local disk in a scratch directory, or an emulated cloud bucket) and to a "
    "reference file map; non-trivial: >= 5 mutations, distinct by (wrapper, operation sequence)"
)
QUICK = 6000
THOROUGH = 60000
REQUIRED = {"op_local": 2000, "op_cloud": 2000, "unlink_missing_rejected": 20, "glob": 200,
            "encoding_errors": 500, "decoding_errors": 500, "local_modes": 200}
ASSUMPTIONS = [
    "cloud storage is emulated by cloudpathlib.local (no network); emptied cloud "
    "directories, and re-writing a cloud path, are not judged (library cache by mtime)"
]

UMASK = os.umask(0)
os.umask(UMASK)
NAMES = ["a", "b.csv", "c d", "x_1=2,y", "é", "data.csv", "Z9", "b", "a.b.csv", ".hid", "_u",
         "t ", "A", ".h.csv"]
DIRS = [(), ("d1",), ("d1", "e"), ("d 2",), ("d1", "e", "f")]
TEXTS = ["", "x", "1,2.5\n", "line1\nline2\n", "é€\n", "a\r\nb\n", "0" * 5000 + "\n",
         " pad \n\n", "n\x00l\x00", "\ufeffb", "\t"]


def case(ctx):
    rng = ctx.rng
    cloud = rng.random() < 0.5
    fs, root = (cloud_fs if cloud else local_fs)(ctx)
    ctx.event("op_cloud" if cloud else "op_local", 0)
    files = {}  # path -> bytes
    dirs = set() if cloud else {root}
    ever_dirs = set()
    ever = set()
    trace = []

    def path_of(parts):
        return root + "".join("/" + x for x in parts)

    def parents(path):
        out = []
        while path != root:
            path = path.rsplit("/", 1)[0]
            out.append(path)
        return out

    def all_dirs():
        d = set(dirs)
        for f in files:
            d.update(parents(f))
        return d

    def pick():
        return path_of(rng.choice(DIRS) + (rng.choice(NAMES),))

    def pick_existing():
        return rng.choice(sorted(files)) if files and rng.random() < 0.7 else pick()

    def ensure_parent(p):
        if not cloud:
            d = p.rsplit("/", 1)[0]
            fs.mkdir(d, parents=True, exist_ok=True)
            dirs.add(d)
            dirs.update(parents(d))

    def writable(p):
        if cloud and p in ever:  # cloudpathlib's cache is keyed by time stamps
            return False
        ever.add(p)
        return p not in all_dirs() and not any(a in files for a in parents(p))

    def op_write_text():
        p = pick()
        if not writable(p):
            return
        t = rng.choice(TEXTS)
        enc = rng.choice([None, "utf-8", "utf-16"])
        ensure_parent(p)
        if rng.random() < 0.25:  # characters the encoding does not have
            how = rng.choice(["ignore", "replace", "strict", None])
            enc = rng.choice(["ascii", "latin-1"])
            try:
                data = t.encode(enc, how or "strict")
            except UnicodeEncodeError:
                data = None
            call = lambda: fs.write_text(p, t, encoding=enc, errors=how)
            ctx.event("encoding_errors")
            if data is None and cloud:
                return  # what is left in the bucket is not judged
            if data is None:
                ctx.raises(UnicodeEncodeError, call, "characters outside the encoding", path=p, text=t)
                fs.unlink(p, missing_ok=True)  # what is left of the file is not judged
                files.pop(p, None)
            else:
                call()
                files[p] = data
            trace.append(("write_text", enc, how, p))
            return
        if enc is None:
            fs.write_text(p, t)
        else:
            fs.write_text(p, t, encoding=enc)
        files[p] = t.encode(enc or "utf-8") if enc != "utf-16" else t.encode("utf-16")
        trace.append(("write_text", p))

    def op_open_write():
        p = pick()
        if not writable(p):
            return
        if not cloud and rng.random() < 0.2:
            return local_modes(p)
        mode = rng.choice(["w", "a", "wb", "ab"])
        nl = rng.choice([None, "", "\n", "\r\n"])
        t = rng.choice(TEXTS)
        ensure_parent(p)
        prev = files.get(p, b"") if mode[0] == "a" else b""
        if "b" in mode:
            with fs.open(p, mode) as f:
                f.write(t.encode("utf-8"))
            files[p] = prev + t.encode("utf-8")
        else:
            with fs.open(p, mode, encoding="utf-8", newline=nl) as f:
                f.write(t)
            w = t.replace("\n", "\r\n") if nl == "\r\n" else t
            files[p] = prev + w.encode("utf-8")
        trace.append(("open", mode, nl, p))

    def local_modes(p):
        """Exclusive creation, update in place, unbuffered and line-buffered writing."""
        kind = rng.choice(["x", "r+b", "unbuffered", "lines"])
        ensure_parent(p)
        ctx.event("local_modes")
        trace.append(("open", kind, p))
        if kind == "x":
            if p in files:
                ctx.raises(FileExistsError, lambda: fs.open(p, "x").close(), "exclusive creation", path=p)
            else:
                with fs.open(p, "x", encoding="utf-8") as f:
                    f.write("new\n")
                files[p] = b"new\n"
        elif kind == "r+b":
            if p in files:
                with fs.open(p, "r+b") as f:
                    f.write(b"XY")
                files[p] = b"XY" + files[p][2:]
        else:
            f = fs.open(p, "wb", 0) if kind == "unbuffered" else fs.open(p, "w", buffering=1, encoding="utf-8")
            try:
                f.write(b"abc\n" if kind == "unbuffered" else "abc\n")
                with open(p, "rb") as g:
                    ctx.equal(g.read(), b"abc\n", "written data are visible at once", kind=kind, path=p)
            finally:
                f.close()
            files[p] = b"abc\n"

    def op_read():
        p = pick_existing()
        if p in all_dirs():
            return
        if p in files:
            with fs.open(p, "rb") as f:
                got = f.read()
            ctx.equal(got, files[p], "file content differs from what was written",
                      path=p, trace=trace)
            if rng.random() < 0.5:
                try:
                    want = files[p].decode("utf-8")
                except UnicodeDecodeError:
                    return
                nl = rng.choice([None, ""])
                with fs.open(p, "r", encoding="utf-8", newline=nl) as f:
                    text = f.read()
                if nl is None:
                    want = want.replace("\r\n", "\n").replace("\r", "\n")
                ctx.equal(text, want, "text content differs", path=p, newline=nl, trace=trace)
            if rng.random() < 0.5:
                how = rng.choice(["ignore", "replace", "strict", None])
                enc = rng.choice(["ascii", "utf-8"])
                try:
                    want = files[p].decode(enc, how or "strict")
                except UnicodeDecodeError:
                    want = None
                ctx.event("decoding_errors")

                def read():
                    with fs.open(p, "r", encoding=enc, errors=how, newline="") as f:
                        return f.read()

                if want is None:
                    ctx.raises(UnicodeDecodeError, read, "bytes outside the encoding", path=p)
                else:
                    ctx.equal(read(), want, "text read with an error handler", path=p, encoding=enc,
                              errors=how, trace=trace)
            ctx.event("read")
        elif not (cloud and p in ever):
            ctx.raises((FileNotFoundError, NotADirectoryError, OSError),
                       lambda: fs.open(p, "r").close(),
                       "opening a missing file for reading", path=p, trace=trace)
        trace.append(("read", p))

    def op_unlink():
        p = pick_existing()
        if any(a in files for a in parents(p)):
            return
        if rng.random() < 0.1:  # a directory is not a file
            some = sorted(d for d in all_dirs() if d != root and any(f.startswith(d + "/") for f in files))
            if some:
                d = rng.choice(some)
                ctx.raises(Exception, lambda: fs.unlink(d, missing_ok=rng.random() < 0.5),
                           "unlink of a directory", path=d, trace=trace)
                ctx.check(fs.is_dir(d), "unlink removed a directory", path=d)
                ctx.event("unlink_directory")
            return
        if p in all_dirs():
            return
        mo = rng.choice([True, False, None])
        kw = {} if mo is None else {"missing_ok": mo}
        if p in files:
            fs.unlink(p, **kw)
            del files[p]
            ever_dirs.update(parents(p))
            ctx.event("unlinked")
        elif mo:
            fs.unlink(p, **kw)
        else:
            ctx.raises(FileNotFoundError, lambda: fs.unlink(p, **kw),
                       "unlink of a missing file", path=p, trace=trace)
            ctx.event("unlink_missing_rejected")
        trace.append(("unlink", mo, p))

    def op_query():
        p = rng.choice([pick_existing(), pick(), path_of(rng.choice(DIRS)),
                        path_of(("nowhere", "x"))])
        d = all_dirs()
        if cloud and p not in d and (p in ever_dirs):
            return
        if any(a in files for a in parents(p)) if p != root else False:
            return
        ctx.equal(bool(fs.is_file(p)), p in files, "is_file", path=p, trace=trace)
        ctx.equal(bool(fs.is_dir(p)), p in d, "is_dir", path=p, trace=trace)
        ctx.equal(bool(fs.exists(p)), p in d or p in files, "exists", path=p, trace=trace)
        ctx.event("query")

    def op_glob():
        d = path_of(rng.choice(DIRS))
        known = all_dirs()
        if d not in known:
            return
        # (cloudpathlib matches "a*" against the whole path)
        pattern = rng.choice(["*", "*.csv", "**/*.csv"] + ([] if cloud else ["a*"]))
        got = sorted(fs.glob(d, pattern))
        want = set()
        for e in set(files) | known:
            if not e.startswith(d + "/"):
                continue
            rest = e[len(d) + 1:]
            if pattern == "**/*.csv":
                ok = fnmatch.fnmatchcase(rest.rsplit("/", 1)[-1], "*.csv")
            else:
                ok = "/" not in rest and fnmatch.fnmatchcase(rest, pattern)
            if ok:
                want.add(e)
        if cloud:  # directories left behind by unlinked files are not judged
            got = [g for g in got if g not in ever_dirs or g in known]
        ctx.equal(got, sorted(want), "glob", dir=d, pattern=pattern, trace=trace)
        ctx.event("glob")

    def op_paths():
        parts = rng.choice(DIRS) + (rng.choice(NAMES),)
        p = path_of(parts)
        ctx.equal(fs.joinpath(root, *parts), p, "joinpath", parts=parts)
        ctx.equal(fs.joinpath(root, "/".join(parts)), p, "joinpath of a relative path")
        ctx.equal(fs.name(p), parts[-1], "name")
        ctx.equal(fs.parent(p), p.rsplit("/", 1)[0], "parent")
        ctx.equal(fs.joinpath(fs.parent(p), fs.name(p)), p, "joinpath(parent, name)")
        ctx.equal(fs.name(p + "/"), parts[-1], "name of a path with a final slash")
        ctx.equal(fs.parent(p + "/"), p.rsplit("/", 1)[0], "parent of a path with a final slash")
        ctx.event("paths")

    def op_mkdir():
        p = path_of(rng.choice(DIRS[1:]))
        par, ok = rng.random() < 0.5, rng.random() < 0.5
        if cloud:
            before = dict(files)
            fs.mkdir(p, parents=par, exist_ok=ok)
            for f in before:
                ctx.check(fs.is_file(f), "mkdir removed a file", path=f)
            return
        if p in files or any(a in files for a in parents(p)):
            return
        d = all_dirs()
        parent = p.rsplit("/", 1)[0]
        mode = rng.choice([None, 0o700, 0o750])
        call = lambda: fs.mkdir(p, parents=par, exist_ok=ok, **({} if mode is None else {"mode": mode}))
        if p in d and not ok:
            ctx.raises(FileExistsError, call, "mkdir of an existing directory", path=p)
        elif p not in d and parent not in d and not par:
            ctx.raises(FileNotFoundError, call, "mkdir without its parent", path=p)
        else:
            fresh = p not in d
            call()
            dirs.add(p)
            dirs.update(parents(p))
            if fresh and mode is not None:
                ctx.equal(stat.S_IMODE(os.stat(p).st_mode), mode & ~UMASK, "mode of a directory", path=p)
        trace.append(("mkdir", par, ok, p))

    ops = [op_write_text, op_write_text, op_open_write, op_open_write, op_read, op_unlink,
           op_unlink, op_query, op_query, op_glob, op_paths, op_mkdir]
    n = rng.randrange(15, 60)
    for _ in range(n):
        rng.choice(ops)()
        ctx.event("op_cloud" if cloud else "op_local")
    for p in sorted(files):
        with fs.open(p, "rb") as f:
            ctx.equal(f.read(), files[p], "final content differs", path=p, trace=trace)
    ctx.note(wrapper="cloud" if cloud else "local", trace=trace[:12], files=len(files))
    if sum(t[0] in ("write_text", "open", "unlink") for t in trace) >= 5:
        short = [t[:-1] + (t[-1].replace(root, ""),) for t in trace]
        ctx.seen(cloud, tuple(short))
