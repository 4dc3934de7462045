"""A ghost file system for the symbolic reading: records what is opened and written, decides nothing else."""
import builtins, io, os, pathlib
from vc.sym import E, Unsupported
from vc.values import PList, Rope
from vc import interp as I, textmodel as TM


class GhostFile:
    """A file opened for writing: the text written so far."""
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.text, self.closed = fs, path, mode, "", False
        from vc.values import stamp_obj
        stamp_obj(self)

    def write(self, s):
        if self.closed: raise ValueError("I/O operation on closed file.")
        I.set_field(self, "text", Rope.make([self.text, s]) if not (isinstance(self.text, str) and isinstance(s, str)) else self.text + s)

    def writelines(self, xs):
        for v in I.to_segs(xs):
            if v.n is None:
                for x in v.vals: self.write(x)
            else: self.write(TM.rep(v.n, v.at))

    def flush(self): pass
    def close(self): I.set_field(self, "closed", True)
    def vc_enter(self): return self
    def vc_exit(self, exc): I.set_field(self, "closed", True); return False


class GhostFS:
    """One path that may exist; every file operation of the program goes through here."""
    def __init__(self, C, path, exists):
        self.path, self.exists, self.events = path, exists, PList()
        for f in {builtins.open, io.open, pathlib.Path.open}: C.replace(f, self.open)
        for f in (os.path.exists, os.path.lexists, os.path.isfile, pathlib.Path.exists, pathlib.Path.is_file): C.replace(f, self.query)
        C.replace(pathlib.Path.touch, self.touch); C.replace(pathlib.Path.unlink, self.event("unlink")); C.replace(os.remove, self.event("unlink"))
        C.replace(pathlib.Path.write_text, self.write_text)

    def query(self, path, *a, **k):
        """existence test of a path: true iff it exists"""
        self.same(path); return self.exists

    def same(self, path):
        if str(path) != self.path: raise Unsupported("another path than the one given")

    def open(self, path, mode="r", *a, **k):
        """open(): mode x raises FileExistsError on an existing path, mode w truncates"""
        self.same(path)
        if k.get("opener") is not None: raise Unsupported("opener")
        if "x" in mode and self.exists: raise FileExistsError(17, "File exists", self.path)
        if "r" in mode and "+" not in mode: raise Unsupported("reading the target")
        f = GhostFile(self, self.path, mode); self.events.append(("open", mode, f)); return f

    def write_text(self, path, text, *a, **k):
        """write_text(): open with mode w, write"""
        f = self.open(path, "w"); f.write(text); f.close()

    def event(self, name):
        def f(path, *a, **k):
            """changes the file system"""
            self.events.append((name, "", None))
        return f

    def touch(self, path, *a, **k):
        """creates the file when it does not exist"""
        self.events.append(("touch", "", None))

    def seen(self): return self.events.values()


# reading -------------------------------------------------------------------------------------------
from vc.terms import P, PZERO, app, mk_le, mk_lt, mk_or, mk_not, mk_eq
from vc import terms as T
from vc.sym import Num, wrap, topoly
from vc.values import Seg


class GhostReader:
    """A text file opened for reading; lines beyond its end are empty."""
    def __init__(self, lines, n):
        self.lines, self.n, self.pos, self.closed = lines, P(n), 0, False
        from vc.values import stamp_obj
        stamp_obj(self)

    def _at(self, i): return self.lines(P(i))

    def readline(self, *a):
        if a: raise Unsupported("readline with a limit")
        if self.closed: raise ValueError("I/O operation on closed file.")
        p = topoly(self.pos); I.set_field(self, "pos", wrap(p + 1, "int"))
        return self._at(p)

    def vc_segs(self):
        p = topoly(self.pos)
        if not E.decide(mk_lt(p - self.n)): return [Seg(vals=[])]

        def at(k):
            I.set_field(self, "pos", wrap(p + k + 1, "int"))
            return self._at(p + k)
        c = (self.n - p).const()
        if c is not None: return [Seg(vals=_Lazy(at, int(c)))]
        return [Seg(self.n - p, at=at)]

    def read(self, *a):
        if a: raise Unsupported("read with a limit")
        p = topoly(self.pos); I.set_field(self, "pos", wrap(self.n, "int"))
        if not E.decide(mk_lt(p - self.n)): return ""
        t = TM.OText(app("rest", (p,), True)); E.assume_once(mk_not(t.empty())); return t

    def readlines(self): return PList.of_segs(self.vc_segs())
    def close(self): I.set_field(self, "closed", True)
    def vc_enter(self): return self
    def vc_exit(self, exc): I.set_field(self, "closed", True); return False


def _Lazy(at, n): raise Unsupported("file of known length")


def opaque_file(C, name="file"):
    """A file about whose contents nothing is known."""
    TM.setup(); n = C.dim(f"lines of {name}")

    def line(i):
        t = TM.OText(app(f"line:{name}", (i,), True))
        E.assume_once(mk_or(mk_lt(i - topoly(n)), t.empty())); E.assume_once(mk_or(mk_not(mk_lt(i - topoly(n))), mk_not(t.empty())))
        return t
    return lambda: GhostReader(line, topoly(n)), line


class Readable:
    """open() for reading one path."""
    def __init__(self, C, path, make, exists=True):
        self.path, self.make, self.exists, self.opened = path, make, exists, []
        for f in {builtins.open, io.open, pathlib.Path.open}: C.replace(f, self.open, optional=True)

    def open(self, path, mode="r", *a, **k):
        """open() for reading: FileNotFoundError without the file, otherwise its lines in order"""
        if str(path) != self.path: raise Unsupported("another path than the one given")
        if mode not in ("r", "rt"): raise Unsupported("mode")
        if not self.exists: raise FileNotFoundError(2, "No such file or directory", self.path)
        f = self.make(); self.opened.append(f); return f


class Disk(GhostFS):
    """A file that is written and then read: its lines are those of the text written."""
    def __init__(self, C, path): super().__init__(C, path, False); self.file = None

    def open(self, path, mode="r", *a, **k):
        """open() of one path: writing starts an empty file, reading goes through the lines written"""
        self.same(path)
        if mode in ("r", "rt"):
            if self.file is None: raise FileNotFoundError(2, "No such file or directory", self.path)
            if not self.file.closed: raise Unsupported("reading a file that is open for writing")
            return TextReader(self.file.text)
        f = super().open(path, mode, *a, **k); self.file = f; self.exists = True
        return f


class TextReader(GhostReader):
    def __init__(self, text):
        ls, rest = TM.lines(text); self.ls, self.rest = ls, rest
        n = topoly(ls.length()) if ls.is_concrete_len() is False else P(len(ls)); self.whole = n
        super().__init__(self.line, n + (0 if rest == "" else 1))

    def line(self, i):
        if not E.decide(mk_lt(i - self.whole)): return self.rest if E.decide(mk_eq(i - self.whole)) else ""
        return Rope.make([self.ls.get(i), "\n"])

    def read(self, *a):
        p = topoly(self.pos); I.set_field(self, "pos", wrap(self.n, "int"))
        if not E.decide(mk_lt(p - self.n)): return ""
        raise Unsupported("the rest of a written file")
