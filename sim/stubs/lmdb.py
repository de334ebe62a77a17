"""Simulated LMDB.

Same interface and semantics as py-lmdb for the calls keri makes: named sub
databases, ordered keys, dupsort, cursors, snapshot-isolated read transactions,
atomic durable write transactions.  The "disk" lives in this process, keyed by a
marker file in the environment directory (so that rmtree/move of the directory
behaves as with the real thing).

Everything that can go wrong is the simulator's choice, made through ``SIM``:

  SIM.hook(kind, env)   called at "begin", "write" (each mutation), "commit" (before
                        the commit takes effect) and "committed" (after it did).
                        It may raise: an lmdb.Error (disk full, I/O error) or
                        SimCrash (the process dies here).
  SIM.crash()           drops every open environment as a process death would: only
                        committed transactions survive.
"""
import io
import os

from sortedcontainers import SortedDict, SortedList


class Error(Exception):
    pass


class KeyExistsError(Error):
    pass


class NotFoundError(Error):
    pass


class MapFullError(Error):
    pass


class DbsFullError(Error):
    pass


class ReadersFullError(Error):
    pass


class BadValsizeError(Error):
    pass


class BadTxnError(Error):
    pass


class BadDbiError(Error):
    pass


class ReadonlyError(Error):
    pass


class InvalidParameterError(Error):
    pass


class DiskError(Error):
    pass


class CorruptedError(Error):
    pass


class LockError(Error):
    pass


class SimCrash(BaseException):
    """The simulated process died at this point."""


MAXKEY = 511


class _Sim:
    def __init__(self):
        self.reset()

    def reset(self):
        self.disks = {}
        self.open = {}
        self.hook = None
        self.serial = 0
        self.ncommit = 0
        self.nwrite = 0

    def fire(self, kind, env):
        if self.hook is not None:
            self.hook(kind, env)

    def crash(self, env=None):
        for e in list(self.open.values()) if env is None else [env]:
            e._die()
            self.open.pop(e._ident, None)


SIM = _Sim()


class _Table:
    """One version of one named database."""
    __slots__ = ("name", "dupsort", "map")

    def __init__(self, name, dupsort, map=None):
        self.name, self.dupsort = name, dupsort
        self.map = SortedDict() if map is None else map

    def clone(self):
        if self.dupsort:
            return _Table(self.name, True, SortedDict((k, SortedList(v)) for k, v in self.map.items()))
        return _Table(self.name, False, SortedDict(self.map))


class _Database:
    def __init__(self, env, name, dupsort):
        self._env, self._name, self._dupsort = env, name, dupsort

    def flags(self, *_):
        return dict(reverse_key=False, dupsort=self._dupsort, integerkey=False,
                    integerdup=False, dupfixed=False)


def _b(x):
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    raise TypeError(f"a bytes-like object is required, not {type(x).__name__!r}")


def _chk(key, what="mdb_put"):
    if not key or len(key) > MAXKEY:
        raise BadValsizeError(f"{what}: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, "
                              "or wrong DUPFIXED size")


class Environment:
    def __init__(self, path, map_size=10485760, subdir=True, readonly=False, metasync=True, sync=True,
                 map_async=False, mode=0o755, create=True, readahead=True, writemap=False, meminit=True,
                 max_readers=126, max_dbs=0, max_spare_txns=1, lock=True):
        self._path, self._max_dbs, self._readonly = path, max_dbs, readonly
        if not os.path.isdir(path):
            if readonly or not create:
                raise Error(f"{path}: No such file or directory")
            os.makedirs(path)
        marker = os.path.join(path, "data.mdb")
        if os.path.exists(marker):
            with io.open(marker) as f:
                ident = f.read()
        elif readonly:
            raise Error(f"{path}: No such file or directory")
        else:
            SIM.serial += 1
            ident = f"simdisk{SIM.serial}"
            with io.open(marker, "w") as f:
                f.write(ident)
        if ident in SIM.open:
            raise Error(f"The environment {path!r} is already open in this process.")
        self._ident = ident
        self._disk = SIM.disks.setdefault(ident, {None: _Table(None, False)})
        self._dbs = {}
        self._nread = 0            # live read transactions
        self._writer = None
        self._alive = True
        SIM.open[ident] = self

    def path(self):
        return self._path

    def max_key_size(self):
        return MAXKEY

    def max_readers(self):
        return 126

    def stat(self):
        return dict(psize=4096, depth=1, branch_pages=0, leaf_pages=1, overflow_pages=0,
                    entries=len(self._disk[None].map) + len(self._disk) - 1)

    def info(self):
        return dict(map_addr=0, map_size=0, last_pgno=1, last_txnid=SIM.ncommit, max_readers=126, num_readers=0)

    def flags(self):
        return dict(readonly=self._readonly)

    def sync(self, force=False):
        pass

    def dump(self):
        """Simulator only: every (table, key, value) on disk."""
        for name, t in sorted(((n, t) for n, t in self._disk.items() if n is not None)):
            for k, v in t.map.items():
                for x in (v if t.dupsort else [v]):
                    yield name, k, x

    def _die(self):
        if self._writer is not None:
            self._writer._rollback()
        self._alive = False

    def close(self):
        if self._alive:
            self._die()
            SIM.open.pop(self._ident, None)

    def _need(self):
        if not self._alive:
            raise Error("Attempt to operate on closed/deleted/dropped object.")

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True, integerkey=False,
                integerdup=False, dupfixed=False):
        self._need()
        if key in self._dbs:
            return self._dbs[key]
        if key is not None and key not in self._disk:
            if not create or self._readonly:
                raise NotFoundError(f"mdb_dbi_open: MDB_NOTFOUND: {key}")
            if len(self._disk) - 1 >= self._max_dbs:
                raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL: Environment maxdbs limit reached")
            self._turn()[key] = _Table(key, bool(dupsort))
        if key is not None and len([k for k in self._dbs if k is not None]) >= self._max_dbs:
            raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL: Environment maxdbs limit reached")
        db = self._dbs[key] = _Database(self, key, self._disk[key].dupsort)
        return db

    def _turn(self):
        """The table directory, detached first from any live reader's snapshot."""
        if self._nread:
            self._disk = SIM.disks[self._ident] = dict(self._disk)
        return self._disk

    def begin(self, db=None, parent=None, write=False, buffers=False):
        self._need()
        if write and self._readonly:
            raise ReadonlyError("read-only environment")
        return Transaction(self, db, parent, write, buffers)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Transaction:
    def __init__(self, env, db=None, parent=None, write=False, buffers=False):
        SIM.fire("begin", env)
        self._env, self._write, self._buffers = env, write, buffers
        self._db = db if db is not None else _Database(env, None, False)
        self._tables = None        # table directory this read txn sees
        self._undo = []            # in-place undo log (write txn, no reader on table)
        self._fresh = {}           # db name -> cloned table (write txn, live readers)
        self._live = True
        self._dirty = False
        if write:
            if env._writer is not None:
                raise BadTxnError("nested write transaction would deadlock")
            env._writer = self
        else:
            if env._writer is not None:
                # A reader starting while a write txn is open sees the last committed state:
                # rebuild it by giving the writer private clones from here on.
                env._writer._privatise()
            self._tables = env._disk
            env._nread += 1

    # -- tables
    def _table(self, db):
        db = db if db is not None else self._db
        name = db._name
        if not self._live or not self._env._alive:
            raise Error("Attempt to operate on closed/deleted/dropped object.")
        if self._write:
            if name in self._fresh:
                return self._fresh[name]
            return self._env._disk[name]
        table = self._tables.get(name)
        if table is None:  # database created after this read txn started
            table = _Table(name, db._dupsort)
        return table

    def _wtable(self, db):
        if not self._write:
            raise ReadonlyError("mdb_put: Permission denied")
        table = self._table(db)
        if table.name not in self._fresh and self._env._nread > 0:
            clone = table.clone()
            self._fresh[table.name] = clone
            table = clone
        self._dirty = True
        SIM.nwrite += 1
        SIM.fire("write", self._env)
        return table, (None if table.name in self._fresh else self._undo)

    def _privatise(self):
        """Move in-place changes into private clones, restoring the committed state."""
        touched = {t.name for t, *_ in self._undo}
        clones = {n: self._env._disk[n].clone() for n in touched}
        self._unroll()
        self._fresh.update(clones)

    def _unroll(self):
        for table, op, key, val in reversed(self._undo):
            m = table.map
            if op == "set":            # restore old single value (None: absent)
                if val is None:
                    m.pop(key, None)
                else:
                    m[key] = val
            elif op == "undup":        # remove a dup that was added
                m[key].remove(val)
                if not m[key]:
                    del m[key]
            elif op == "redup":        # re-add a dup that was removed
                m.setdefault(key, SortedList()).add(val)
        self._undo = []

    def _rollback(self):
        if self._live:
            self._unroll()
            self._fresh = {}
            self._end()

    def _end(self):
        self._live = False
        if self._write:
            if self._env._writer is self:
                self._env._writer = None
        else:
            self._env._nread -= 1
            self._tables = {}

    def commit(self):
        if not self._live:
            return
        if self._write and self._dirty:
            try:
                SIM.fire("commit", self._env)
            except Error:
                self._rollback()
                raise
            if self._fresh:
                self._env._turn().update(self._fresh)
            self._undo = []
            SIM.ncommit += 1
            self._end()
            SIM.fire("committed", self._env)
            return
        self._end()

    def abort(self):
        self._rollback()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, SimCrash):
            self._rollback()
        elif et is not None:
            self.abort()
        else:
            self.commit()

    def __del__(self):
        try:
            self._rollback()
        except Exception:
            pass

    def _out(self, v):
        if v is None:
            return None
        return memoryview(v) if self._buffers else v

    # -- data
    def get(self, key, default=None, db=None):
        key = _b(key)
        _chk(key, "mdb_get")
        t = self._table(db)
        v = t.map.get(key)
        if v is None:
            return default
        return self._out(v[0] if t.dupsort else v)

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        key, value = _b(key), _b(value)
        _chk(key)
        t, undo = self._wtable(db)
        return _put(t, undo, key, value, dupdata, overwrite)

    def replace(self, key, value, db=None):
        old = self.get(key, db=db)
        self.put(key, value, db=db)
        return old

    def pop(self, key, db=None):
        old = self.get(key, db=db)
        if old is not None:
            self.delete(key, db=db)
        return old

    def delete(self, key, value=b"", db=None):
        key, value = _b(key), _b(value)
        _chk(key, "mdb_del")
        t, undo = self._wtable(db)
        if key not in t.map:
            return False
        if t.dupsort:
            if value:
                if value not in t.map[key]:
                    return False
                _deldup(t, undo, key, value)
            else:
                for v in list(t.map[key]):
                    _deldup(t, undo, key, v)
        else:
            if undo is not None:
                undo.append((t, "set", key, t.map[key]))
            del t.map[key]
        return True

    def drop(self, db, delete=True):
        t, undo = self._wtable(db)
        for key in list(t.map):
            if t.dupsort:
                for v in list(t.map[key]):
                    _deldup(t, undo, key, v)
            else:
                if undo is not None:
                    undo.append((t, "set", key, t.map[key]))
                del t.map[key]

    def stat(self, db=None):
        t = self._table(db)
        n = sum(len(v) for v in t.map.values()) if t.dupsort else len(t.map)
        return dict(psize=4096, depth=1, branch_pages=0, leaf_pages=1, overflow_pages=0, entries=n)

    def cursor(self, db=None):
        return Cursor(self, db if db is not None else self._db)


def _deldup(t, undo, key, value):
    t.map[key].remove(value)
    if not t.map[key]:
        del t.map[key]
    if undo is not None:
        undo.append((t, "redup", key, value))


def _put(t, undo, key, value, dupdata, overwrite):
    if t.dupsort:
        if len(value) > MAXKEY:
            raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
        if not value:
            raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
        cur = t.map.get(key)
        if cur is not None:
            if not overwrite:
                return False
            if value in cur:
                return bool(dupdata)
        else:
            cur = t.map[key] = SortedList()
        cur.add(value)
        if undo is not None:
            undo.append((t, "undup", key, value))
        return True
    if key in t.map:
        if not overwrite:
            return False
    if undo is not None:
        undo.append((t, "set", key, t.map.get(key)))
    t.map[key] = value
    return True


class Cursor:
    """Position is kept as a (key, dup) pair, so mutations never invalidate it."""

    def __init__(self, txn, db):
        self._txn, self._dbh = txn, db
        self._key = None      # None: unpositioned
        self._val = None
        self._gone = False    # current item was deleted through this cursor
        txn._table(db)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @property
    def _t(self):
        return self._txn._table(self._dbh)

    def _at(self, key, val):
        self._key, self._val, self._gone = key, val, False
        return True

    def _none(self):
        self._key = self._val = None
        self._gone = False
        return False

    def key(self):
        return self._txn._out(self._key if self._key is not None else b"")

    def value(self):
        return self._txn._out(self._val if self._val is not None else b"")

    def item(self):
        return (self.key(), self.value())

    def _peek(self, idx):
        t = self._t
        k, v = t.map.peekitem(idx)
        return k, (v[0] if t.dupsort else v)

    def first(self):
        if not self._t.map:
            return self._none()
        return self._at(*self._peek(0))

    def last(self):
        t = self._t
        if not t.map:
            return self._none()
        k, v = t.map.peekitem(-1)
        return self._at(k, v[-1] if t.dupsort else v)

    def _reload(self):
        pass

    def next(self):
        if self._key is None:
            return self.first()
        t = self._t
        if t.dupsort and self._key in t.map:
            dups = t.map[self._key]
            i = dups.bisect_left(self._val) if self._gone else dups.bisect_right(self._val)
            if i < len(dups):
                return self._at(self._key, dups[i])
        i = t.map.bisect_right(self._key)
        if self._gone and not t.dupsort:
            i = t.map.bisect_left(self._key)
        if i >= len(t.map):
            return self._none()
        return self._at(*self._peek(i))

    def prev(self):
        if self._key is None:
            return self.last()
        t = self._t
        if t.dupsort and self._key in t.map:
            dups = t.map[self._key]
            i = dups.bisect_left(self._val) - 1
            if i >= 0:
                return self._at(self._key, dups[i])
        i = t.map.bisect_left(self._key) - 1
        if i < 0:
            return self._none()
        k, v = t.map.peekitem(i)
        return self._at(k, v[-1] if t.dupsort else v)

    def next_dup(self):
        t = self._t
        if self._key is None or not t.dupsort or self._key not in t.map:
            return self._none()
        dups = t.map[self._key]
        i = dups.bisect_left(self._val) if self._gone else dups.bisect_right(self._val)
        if i >= len(dups):
            return self._none()
        return self._at(self._key, dups[i])

    def prev_dup(self):
        t = self._t
        if self._key is None or not t.dupsort or self._key not in t.map:
            return self._none()
        dups = t.map[self._key]
        i = dups.bisect_left(self._val) - 1
        if i < 0:
            return self._none()
        return self._at(self._key, dups[i])

    def next_nodup(self):
        if self._key is None:
            return self.first()
        t = self._t
        i = t.map.bisect_right(self._key)
        if i >= len(t.map):
            return self._none()
        return self._at(*self._peek(i))

    def prev_nodup(self):
        if self._key is None:
            return self.last()
        t = self._t
        i = t.map.bisect_left(self._key) - 1
        if i < 0:
            return self._none()
        k, v = t.map.peekitem(i)
        return self._at(k, v[-1] if t.dupsort else v)

    def first_dup(self):
        t = self._t
        if self._key is None or self._key not in t.map:
            return self._none()
        return self._at(self._key, t.map[self._key][0] if t.dupsort else t.map[self._key])

    def last_dup(self):
        t = self._t
        if self._key is None or self._key not in t.map:
            return self._none()
        return self._at(self._key, t.map[self._key][-1] if t.dupsort else t.map[self._key])

    def set_key(self, key):
        key = _b(key)
        _chk(key, "mdb_cursor_get")
        t = self._t
        if key not in t.map:
            return self._none()
        return self._at(key, t.map[key][0] if t.dupsort else t.map[key])

    def set_range(self, key):
        key = _b(key)
        if not key:
            return self.first()
        if len(key) > MAXKEY:
            raise BadValsizeError("mdb_cursor_get: MDB_BAD_VALSIZE")
        t = self._t
        i = t.map.bisect_left(key)
        if i >= len(t.map):
            return self._none()
        return self._at(*self._peek(i))

    def set_key_dup(self, key, value):
        key, value = _b(key), _b(value)
        _chk(key, "mdb_cursor_get")
        t = self._t
        if key in t.map and t.dupsort and value in t.map[key]:
            return self._at(key, value)
        return self._none()

    def set_range_dup(self, key, value):
        key, value = _b(key), _b(value)
        _chk(key, "mdb_cursor_get")
        t = self._t
        if key in t.map and t.dupsort:
            i = t.map[key].bisect_left(value)
            if i < len(t.map[key]):
                return self._at(key, t.map[key][i])
        return self._none()

    def get(self, key, default=None):
        if self.set_key(key):
            return self.value()
        return default

    def count(self):
        t = self._t
        if self._key is None or self._key not in t.map:
            raise InvalidParameterError("mdb_cursor_count: Invalid argument")
        return len(t.map[self._key]) if t.dupsort else 1

    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        key, val = _b(key), _b(val)
        _chk(key)
        t, undo = self._txn._wtable(self._dbh)
        done = _put(t, undo, key, val, dupdata, overwrite)
        cur = t.map[key]
        self._at(key, val if done else (cur[0] if t.dupsort else cur))
        return done

    def putmulti(self, items, dupdata=True, overwrite=True, append=False):
        consumed = added = 0
        for k, v in items:
            consumed += 1
            added += bool(self.put(k, v, dupdata, overwrite))
        return consumed, added

    def replace(self, key, val):
        old = self.get(key)
        self.put(key, val)
        return old

    def delete(self, dupdata=False):
        if self._key is None:
            return False
        t, undo = self._txn._wtable(self._dbh)
        if self._key not in t.map:
            return False
        key = self._key
        if t.dupsort:
            vals = list(t.map[key]) if dupdata else [self._val]
            for v in vals:
                if key in t.map and v in t.map[key]:
                    _deldup(t, undo, key, v)
        else:
            if undo is not None:
                undo.append((t, "set", key, t.map[key]))
            del t.map[key]
        # py-lmdb: after a delete the cursor is on the next item, if any
        t = self._t
        if t.dupsort and key in t.map:
            i = t.map[key].bisect_left(self._val)
            if i < len(t.map[key]):
                self._at(key, t.map[key][i])
                return True
        i = t.map.bisect_right(key) if (t.dupsort and key in t.map) else t.map.bisect_left(key)
        if i >= len(t.map):
            self._none()
        else:
            self._at(*self._peek(i))
        return True

    # -- iterators
    def _iter(self, step, keys, values, positioned):
        while positioned:
            if keys and values:
                yield self.item()
            elif keys:
                yield self.key()
            else:
                yield self.value()
            positioned = step()

    def iternext(self, keys=True, values=True):
        if self._key is None:
            self.first()
        return self._iter(self.next, keys, values, self._key is not None)

    __iter__ = iternext

    def iternext_dup(self, keys=False, values=True):
        return self._iter(self.next_dup, keys, values, self._key is not None)

    def iternext_nodup(self, keys=True, values=False):
        if self._key is None:
            self.first()
        return self._iter(self.next_nodup, keys, values, self._key is not None)

    def iterprev(self, keys=True, values=True):
        if self._key is None:
            self.last()
        return self._iter(self.prev, keys, values, self._key is not None)

    def iterprev_dup(self, keys=False, values=True):
        return self._iter(self.prev_dup, keys, values, self._key is not None)

    def iterprev_nodup(self, keys=True, values=False):
        if self._key is None:
            self.last()
        return self._iter(self.prev_nodup, keys, values, self._key is not None)


def open(path, **kwa):
    return Environment(path, **kwa)


def version(subpatch=False):
    return (0, 9, 33)


__version__ = "2.1.1"
