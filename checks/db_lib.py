"""
The databases' behaviour as a state machine over tags, shared by P20 and P21.

Disk      listed tags and metatags of the last save, and the tags' files
Mem       an open database: listed tags and metatags, cached values
apply()   what an operation returns and how it changes both
"""
import copy

MISSING = LookupError


class Disk:
    def __init__(self):
        self.tags = None            # None: never saved
        self.metas = ()
        self.files = {}
        self.subs = {}

    def sub(self, m):
        return self.subs.setdefault(m, Disk())

    def wipe(self, listed):
        for t in listed:
            self.files.pop(t, None)
        self.tags, self.metas = None, ()


class Mem:
    def __init__(self, disk, preload=False):
        self.disk = disk
        self.cache = {}
        self.manifest()
        if preload:
            self.load()
        self.subs = {m: Mem(disk.sub(m), preload) for m in self.metas}

    def manifest(self):
        self.tags = set(self.disk.tags or ())
        self.metas = list(self.disk.metas)

    def load(self):
        for t in self.tags:
            if t not in self.cache and t in self.disk.files:
                self.cache[t] = self.disk.files[t]

    def value(self, t):
        """(known, value)"""
        if t in self.cache:
            return True, self.cache[t]
        if t in self.disk.files:
            return True, self.disk.files[t]
        return False, None

    def save(self):
        self.disk.tags = set(self.tags)
        self.disk.metas = tuple(self.metas)
        for m in self.metas:
            self.subs[m].save()
        self.disk.files.update(self.cache)

    def clear(self):
        self.cache.clear()
        for m in self.metas:
            self.subs[m].clear()

    def delete(self):
        for m in list(self.metas):
            self.subs[m].delete()
        self.disk.wipe(self.tags)

    # -- one operation: ("value", v) or ("error", type)
    def apply(self, op, t=None, v=None):
        known, val = self.value(t) if t is not None else (False, None)
        if op in ("set", "setitem"):
            self.tags.add(t)
            self.cache[t] = v
        elif op == "set-save":
            self.tags.add(t)
            self.disk.files[t] = v
            self.cache.pop(t, None)
        elif op == "query":
            return ("value", val) if known else ("error", MISSING)
        elif op == "query-silent":
            return "value", val
        elif op == "query-cache":
            if known:
                self.cache[t] = val
            return "value", val
        elif op == "getitem":
            return "value", self.cache.get(t)
        elif op in ("pop", "pop-silent", "del"):
            gone = not (t in self.tags or known)
            self.tags.discard(t)
            self.cache.pop(t, None)
            self.disk.files.pop(t, None)
            if op == "pop" and gone:
                return "error", MISSING
            return "value", None if op == "del" else val
        elif op in ("rollback", "rollback-cache"):
            if t not in self.disk.files:
                self.tags.discard(t)
            self.cache.pop(t, None)
            if op == "rollback-cache" and t in self.disk.files:
                self.cache[t] = self.disk.files[t]
        elif op in ("save-tag", "save-tag-drop"):
            if t not in self.cache:
                return "error", MISSING
            self.disk.files[t] = self.cache[t]
            if op == "save-tag-drop":
                self.cache.pop(t)
        elif op in ("save", "context", "context-error"):
            self.save()
        elif op == "clear":
            self.clear()
        elif op == "load-tags":
            self.load()
        elif op == "reload":
            self.manifest()
            for m in self.metas:
                if m not in self.subs:
                    self.subs[m] = Mem(self.disk.sub(m))
        elif op == "metatag":
            if t not in self.metas:
                self.metas.append(t)
                self.subs.setdefault(t, Mem(self.disk.sub(t)))
        elif op == "delete-metatag":
            if t not in self.metas:
                return "error", MISSING
            self.subs.pop(t).delete()
            self.metas.remove(t)
        else:
            raise KeyError(op)
        return "value", None


class Real:
    """the same operations on a real database, sync or async"""

    def __init__(self, cls, a, run):
        self.cls, self.a, self.run = cls, a, run

    def call(self, db, name, *x, **k):
        f = getattr(db, ("a" if self.a else "") + name)
        return self.run(f, *x, **k)

    def open(self, **k):
        return self.run(self.cls, **k)

    def apply(self, db, op, t=None, v=None):
        c = self.call
        if op == "set":
            c(db, "set_tag", t, v)
        elif op == "setitem":
            db[t] = v
        elif op == "set-save":
            c(db, "set_tag", t, v, cache=False)
        elif op == "query":
            return c(db, "query_tag", t)
        elif op == "query-silent":
            return c(db, "query_tag", t, silent=True)
        elif op == "query-cache":
            return c(db, "query_tag", t, silent=True, cache=True)
        elif op == "getitem":
            return db[t]
        elif op == "pop":
            return c(db, "pop_tag", t)
        elif op == "pop-silent":
            return c(db, "pop_tag", t, silent=True)
        elif op == "del":
            del db[t]
        elif op == "rollback":
            c(db, "rollback_tag", t)
        elif op == "rollback-cache":
            c(db, "rollback_tag", t, cache=True)
        elif op == "save-tag":
            c(db, "save_tag", t)
        elif op == "save-tag-drop":
            c(db, "save_tag", t, drop_cache=True)
        elif op == "save":
            c(db, "save_database")
        elif op in ("context", "context-error"):
            n = "a" if self.a else ""
            kind = type(db)
            x = self.run(getattr(kind, f"__{n}enter__"), db)
            error = LookupError("body")
            swallowed = self.run(
                getattr(kind, f"__{n}exit__"), db,
                *((LookupError, error, None) if op == "context-error"
                  else (None, None, None)))
            if x is not db:
                return "another object entered"
            if op == "context-error" and swallowed:
                return "error swallowed"
        elif op == "clear":
            c(db, "clear_cache")
        elif op == "load-tags":
            c(db, "load_tags", silent=True)
        elif op == "reload":
            c(db, "load_database", manifest=True, preload=False, silent=True)
        elif op == "metatag":
            c(db, "metatag", t, silent=True)
        elif op == "delete-metatag":
            c(db, "delete_metatag", t)
        else:
            raise KeyError(op)


def labels(mem):
    """abstract state: values only up to equality"""
    names = {}

    def lab(v):
        return names.setdefault(id(v), len(names))

    def disk(d):
        return (None if d.tags is None else tuple(sorted(d.tags)), d.metas,
                tuple((t, lab(d.files[t])) for t in sorted(d.files)),
                tuple((m, disk(d.subs[m])) for m in sorted(d.subs)))

    def one(m):
        return (tuple(sorted(m.tags)), tuple(m.metas),
                tuple((t, lab(m.cache[t])) for t in sorted(m.cache)),
                tuple((k, one(m.subs[k])) for k in sorted(m.subs)))
    return disk(mem.disk), one(mem)
