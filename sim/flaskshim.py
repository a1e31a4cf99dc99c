"""Stand-ins for flask, flask_sqlalchemy and the parts of sqlalchemy an application of this kind uses.

The database behaves like the example's SQLite file: autocommitted reads, one write transaction at a time
(taken at the first INSERT/UPDATE/DELETE), atomic durable commits. Every statement is a step of the
simulator (a scheduling point, a crash point and a place where an error can be injected). The session
behaves like SQLAlchemy's: identity map, unit of work, autoflush, expire on commit, a failed flush leaves
the session unusable until rollback, and the session is discarded at the end of each request."""
import _thread
import copy
import functools
import json
import operator
import sys
import types

from sim import sched

ctx = _thread._local()


# ------------------------------------------------------------------ sqlalchemy.exc / werkzeug.exceptions
class SQLAlchemyError(Exception):
    pass


class InvalidRequestError(SQLAlchemyError):
    pass


class PendingRollbackError(InvalidRequestError):
    pass


class NoResultFound(InvalidRequestError):
    pass


class MultipleResultsFound(InvalidRequestError):
    pass


class ObjectDeletedError(InvalidRequestError):
    pass


class DetachedInstanceError(SQLAlchemyError):
    pass


class StaleDataError(SQLAlchemyError):
    pass


class StatementError(SQLAlchemyError):
    pass


class DBAPIError(StatementError):
    pass


class DatabaseError(DBAPIError):
    pass


class IntegrityError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class HTTPException(Exception):
    code = 500

    def __init__(self, description=None, response=None):
        super().__init__(description)
        self.description = description
        self.response = response


class BadRequest(HTTPException):
    code = 400


class BadRequestKeyError(BadRequest, KeyError):
    pass


class NotFound(HTTPException):
    code = 404


# ------------------------------------------------------------------ the database engine (durable part + lock)
class Engine:
    def __init__(self, tables=None):
        self.tables = tables if tables is not None else {}   # name -> {pk: row}
        self.lock = sched.SimLock()
        self.step = lambda kind: None


ENGINE = Engine()


def step(kind):
    ENGINE.step(kind)


# ------------------------------------------------------------------ columns and conditions
class Type:
    aff = None

    def __init__(self, *a, **k):
        pass


class Integer(Type):
    aff = 'int'


class BigInteger(Integer):
    pass


class SmallInteger(Integer):
    pass


class String(Type):
    aff = 'text'


class Text(String):
    pass


class Unicode(String):
    pass


class LargeBinary(Type):
    aff = 'blob'


class Boolean(Type):
    aff = 'bool'


class Float(Type):
    aff = 'real'


class DateTime(Type):
    pass


class ForeignKey:
    def __init__(self, target, **k):
        self.target = target


def conv(col, v):
    """Value as stored or compared in that column (SQLite type affinity)."""
    if isinstance(v, (bytearray, memoryview)):
        v = bytes(v)
    if v is None:
        return None
    if col is not None and col.type.aff == 'int':
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            if not -2**63 <= v < 2**63:
                raise OverflowError('Python int too large to convert to SQLite INTEGER')
            return v
        if isinstance(v, float):
            return int(v) if v.is_integer() else v
        if isinstance(v, str):
            s = v.strip(' \t\n\r\f\v')
            try:
                if s and all(c in '+-0123456789' for c in s):
                    i = int(s)
                    return i if -2**63 <= i < 2**63 else float(i)
                if s and all(c in '+-0123456789.eE' for c in s):
                    f = float(s)
                    return int(f) if f.is_integer() and abs(f) < 2**63 else f
            except (ValueError, OverflowError):
                pass
        return v
    if col is not None and col.type.aff == 'text' and isinstance(v, (int, float)) and not isinstance(v, bool):
        return str(v)
    if isinstance(v, (list, dict, set, tuple)) or not isinstance(v, (str, bytes, int, float)):
        if type(v).__module__ != 'datetime' and not isinstance(v, (str, bytes, int, float)):
            raise StatementError('Error binding parameter: type %r is not supported' % type(v).__name__)
    return v


class Expr:
    def value(self, row):
        raise NotImplementedError

    def _cmp(self, other, op):
        return Cmp(self, other, op)

    def __eq__(self, o):
        return IsNull(self) if o is None else self._cmp(o, operator.eq)

    def __ne__(self, o):
        return NotC(IsNull(self)) if o is None else self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    __hash__ = object.__hash__

    def is_(self, o):
        return self == o

    def isnot(self, o):
        return self != o

    is_not = isnot

    def in_(self, xs):
        return Or(*[self == x for x in xs])

    def __add__(self, o):
        return Arith(self, o, operator.add)

    def __radd__(self, o):
        return Arith(o, self, operator.add)

    def __sub__(self, o):
        return Arith(self, o, operator.sub)

    def __rsub__(self, o):
        return Arith(o, self, operator.sub)

    def desc(self):
        return Order(self, True)

    def asc(self):
        return Order(self, False)


class Order:
    def __init__(self, e, rev):
        self.e, self.rev = e, rev


def val(x, row, col=None):
    if isinstance(x, Expr):
        return x.value(row)
    return conv(col, x)


class Arith(Expr):
    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, b, op

    def value(self, row):
        a, b = val(self.a, row), val(self.b, row)
        return None if a is None or b is None else self.op(a, b)


class Cond:
    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return NotC(self)

    def __bool__(self):
        raise TypeError('Boolean value of this clause is not defined')


class Cmp(Cond):
    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, b, op

    def test(self, row):
        a = val(self.a, row, self.b if isinstance(self.b, Column) else None)
        b = val(self.b, row, self.a if isinstance(self.a, Column) else None)
        if a is None or b is None:
            return False
        try:
            return bool(self.op(a, b))
        except TypeError:
            rank = [isinstance(x, (int, float)) and 1 or isinstance(x, str) and 2 or 3 for x in (a, b)]
            return bool(self.op(*rank)) if self.op not in (operator.eq, operator.ne) else self.op is operator.ne


class IsNull(Cond):
    def __init__(self, a):
        self.a = a

    def test(self, row):
        return val(self.a, row) is None


class NotC(Cond):
    def __init__(self, c):
        self.c = c

    def test(self, row):
        return not self.c.test(row)


class And(Cond):
    def __init__(self, *cs):
        self.cs = cs

    def test(self, row):
        return all(c.test(row) for c in self.cs)


class Or(Cond):
    def __init__(self, *cs):
        self.cs = cs

    def test(self, row):
        return any(c.test(row) for c in self.cs)


class Column(Expr):
    def __init__(self, *args, **kw):
        args = list(args)
        self.colname = args.pop(0) if args and isinstance(args[0], str) else None
        self.fk = None
        self.type = Type()
        for a in args:
            if isinstance(a, type) and issubclass(a, Type):
                self.type = a()
            elif isinstance(a, Type):
                self.type = a
            elif isinstance(a, ForeignKey):
                self.fk = a
        self.pk = kw.get('primary_key', False)
        self.unique = kw.get('unique', False)
        self.nullable = kw.get('nullable', not self.pk)
        self.default = kw.get('default')
        self.server_default = kw.get('server_default')
        self.name = None
        self.cls = None

    __hash__ = object.__hash__

    def __set_name__(self, owner, name):
        self.name = name
        self.cls = owner

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return obj._sa.get(obj, self.name)

    def __set__(self, obj, v):
        obj._sa.set(obj, self.name, v)

    def value(self, row):
        return row[self.name]

    @property
    def key(self):
        return self.name


class Func(Expr):
    def __init__(self, name, arg=None):
        self.fname, self.arg = name, arg


class _FuncNS:
    def __getattr__(self, n):
        return lambda arg=None, *a: Func(n, arg)


func = _FuncNS()


# ------------------------------------------------------------------ mapped classes
class State:
    """Instance state: transient (session None, key None), pending, persistent, deleted or detached."""

    def __init__(self):
        self.session = None
        self.key = None
        self.vals = {}
        self.rels = {}
        self.dirty = set()
        self.expired = False

    def load(self, obj):
        if self.session is None:
            raise DetachedInstanceError('Instance is not bound to a Session')
        row = self.session._row(type(obj), self.key)
        if row is None:
            raise ObjectDeletedError('row has been deleted')
        keep = {n: self.vals[n] for n in self.dirty}
        self.vals = dict(row)
        self.vals.update(keep)
        self.rels = {} if not self.dirty else self.rels
        self.expired = False

    def get(self, obj, n):
        if self.expired and n not in self.dirty:
            self.load(obj)
        return self.vals.get(n)

    def set(self, obj, n, v):
        self.vals[n] = v
        if self.key is not None:
            self.dirty.add(n)


class RelList(list):
    def __init__(self, owner, rel, xs=()):
        super().__init__(xs)
        self.owner, self.rel = owner, rel

    def append(self, x):
        super().append(x)
        setattr(x, self.rel.other_name, self.owner)
        if self.owner._sa.session is not None:
            self.owner._sa.session.add(x)

    def remove(self, x):
        super().remove(x)
        setattr(x, self.rel.other_name, None)


class Relationship:
    def __init__(self, target, backref=None, lazy=True, back_populates=None, uselist=None, cascade=None, **k):
        self.target, self.backref, self.lazy, self.back_populates = target, backref, lazy, back_populates
        self.many = None
        self.name = self.cls = self.tcls = self.fkcol = self.other_name = None

    def __set_name__(self, owner, name):
        self.name, self.cls = name, owner

    def setup(self, reg):
        self.tcls = reg[self.target] if isinstance(self.target, str) else self.target
        mine = [c for c in self.cls._cols.values() if c.fk and c.fk.target.split('.')[0] == self.tcls.__tablename__]
        if mine:
            self.many, self.fkcol = False, mine[0]
        else:
            self.many = True
            self.fkcol = [c for c in self.tcls._cols.values()
                          if c.fk and c.fk.target.split('.')[0] == self.cls.__tablename__][0]
        if self.backref:
            name, kw = self.backref if isinstance(self.backref, tuple) else (self.backref, {})
            r = Relationship(self.cls, lazy=kw.get('lazy', True))
            r.name, r.cls = name, self.tcls
            setattr(self.tcls, name, r)
            self.tcls._rels[name] = r
            r.setup(reg)
            self.other_name, r.other_name = name, self.name
        elif self.back_populates:
            self.other_name = self.back_populates

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        st = obj._sa
        if st.expired:
            st.load(obj)
        if self.name in st.rels:
            return st.rels[self.name]
        s = st.session
        if self.many:
            if s is None or st.key is None:
                if st.key is not None:
                    raise DetachedInstanceError('lazy load operation cannot proceed')
                v = RelList(obj, self)
            else:
                q = Query(s, self.tcls).filter(self.fkcol == st.key)
                if self.lazy == 'dynamic':
                    return q
                v = RelList(obj, self, q.all())
        else:
            fk = st.vals.get(self.fkcol.name)
            if fk is None:
                return None
            if s is None:
                raise DetachedInstanceError('lazy load operation cannot proceed')
            v = s.get(self.tcls, fk)
        st.rels[self.name] = v
        return v

    def __set__(self, obj, v):
        st = obj._sa
        if self.many:
            st.rels[self.name] = RelList(obj, self)
            for x in v:
                st.rels[self.name].append(x)
            return
        st.rels[self.name] = v
        st.vals[self.fkcol.name] = v._sa.key if v is not None else None
        if st.key is not None:
            st.dirty.add(self.fkcol.name)


def snake(n):
    out = ''
    for i, c in enumerate(n):
        if c.isupper() and i and not n[i - 1].isupper():
            out += '_'
        out += c.lower()
    return out


class QueryProp:
    def __get__(self, obj, owner=None):
        return Query(current(), owner)


def make_model(reg):
    class Meta(type):
        def __init__(cls, name, bases, ns):
            super().__init__(name, bases, ns)
            if ns.get('_base') or ns.get('__abstract__'):
                return
            cls._cols = {}
            cls._rels = {}
            for b in reversed(cls.__mro__):
                for k, v in list(vars(b).items()):
                    if isinstance(v, Column):
                        if v.cls is not cls:
                            v = copy.copy(v)
                            v.cls = cls
                            setattr(cls, k, v)
                        v.name = k
                        cls._cols[k] = v
                    elif isinstance(v, Relationship):
                        cls._rels[k] = v
            cls._pk = [c for c in cls._cols.values() if c.pk][0]
            if '__tablename__' not in ns:
                cls.__tablename__ = snake(name)
            reg[name] = cls

    class Model(metaclass=Meta):
        _base = True
        query = QueryProp()

        def __new__(cls, *a, **k):
            o = object.__new__(cls)
            configure(reg)
            o._sa = State()
            return o

        def __init__(self, **kw):
            for k, v in kw.items():
                if not hasattr(type(self), k):
                    raise TypeError('%r is an invalid keyword argument' % k)
                setattr(self, k, v)
    return Model


def configure(reg):
    for c in list(reg.values()):
        for r in list(c._rels.values()):
            if r.tcls is None:
                r.setup(reg)


# ------------------------------------------------------------------ session
class Session:
    def __init__(self):
        self.identity = {}
        self.new = []
        self.deleted = []
        self.txn = None          # overlay tables while a write transaction is open
        self.failed = False
        self.flushing = False
        self.noflush = 0

    # --- statements
    def _tables(self):
        return self.txn if self.txn is not None else ENGINE.tables

    def _check(self):
        if self.failed:
            raise PendingRollbackError("This Session's transaction has been rolled back due to a previous exception")

    def _row(self, cls, key):
        self._check()
        step('select')
        return self._tables().get(cls.__tablename__, {}).get(key)

    def _write(self, kind):
        """Before a write statement: take the write lock."""
        self._check()
        if self.txn is None:
            step('begin')
            ENGINE.lock.acquire()
            self.txn = {t: dict(rows) for t, rows in ENGINE.tables.items()}
        step(kind)

    def _end(self):
        if self.txn is not None:
            self.txn = None
            ENGINE.lock.release()

    def _insert(self, obj):
        cls, st = type(obj), obj._sa
        self._write('insert')
        table = self.txn.setdefault(cls.__tablename__, {})
        row = {}
        for n, c in cls._cols.items():
            v = st.vals.get(n)
            if v is None and n not in st.vals and c.default is not None:
                v = c.default() if callable(c.default) else c.default
            row[n] = conv(c, v)
        pk = cls._pk.name
        if row[pk] is None and cls._pk.type.aff == 'int':
            row[pk] = max([k for k in table if isinstance(k, int)], default=0) + 1
        for n, c in cls._cols.items():
            if row[n] is None and not c.nullable:
                raise IntegrityError('NOT NULL constraint failed: %s.%s' % (cls.__tablename__, n))
        if row[pk] in table:
            raise IntegrityError('UNIQUE constraint failed: %s.%s' % (cls.__tablename__, pk))
        self._unique(cls, table, row, None)
        table[row[pk]] = row
        st.key, st.session, st.vals, st.dirty, st.expired = row[pk], self, dict(row), set(), False
        self.identity[cls, st.key] = obj

    def _unique(self, cls, table, row, me):
        for n, c in cls._cols.items():
            if c.unique and row[n] is not None:
                for k, r in table.items():
                    if k != me and r[n] == row[n] and type(r[n]) is type(row[n]):
                        raise IntegrityError('UNIQUE constraint failed: %s.%s' % (cls.__tablename__, n))

    def _update(self, obj):
        cls, st = type(obj), obj._sa
        self._write('update')
        table = self.txn.setdefault(cls.__tablename__, {})
        old = table.get(st.key)
        if old is None:
            raise StaleDataError('UPDATE statement on table %r expected to update 1 row(s); 0 were matched.'
                                 % cls.__tablename__)
        row = dict(old)
        for n in sorted(st.dirty):
            v = st.vals[n]
            row[n] = conv(cls._cols[n], v.value(row) if isinstance(v, Expr) else v)
            if row[n] is None and not cls._cols[n].nullable:
                raise IntegrityError('NOT NULL constraint failed: %s.%s' % (cls.__tablename__, n))
        self._unique(cls, table, row, st.key)
        pk = row[cls._pk.name]
        if pk != st.key:
            if pk in table:
                raise IntegrityError('UNIQUE constraint failed')
            del table[st.key]
            self.identity.pop((cls, st.key), None)
            st.key = pk
            self.identity[cls, pk] = obj
        table[pk] = row
        st.dirty = set()
        if any(isinstance(v, Expr) for v in st.vals.values()):
            st.expired = True

    def _delete(self, obj):
        cls, st = type(obj), obj._sa
        self._write('delete')
        if self.txn.setdefault(cls.__tablename__, {}).pop(st.key, None) is None:
            raise StaleDataError('DELETE statement on table expected to delete 1 row(s); 0 were matched.')
        self.identity.pop((cls, st.key), None)
        st.session = None

    # --- unit of work
    def add(self, obj):
        st = obj._sa
        if st.session is self:
            if obj in self.deleted:
                self.deleted.remove(obj)
            return
        if st.key is None:
            if not any(o is obj for o in self.new):
                self.new.append(obj)
            st.session = self
            for r in type(obj)._rels.values():
                v = st.rels.get(r.name)
                for x in (v if isinstance(v, list) else [v] if v is not None else []):
                    self.add(x)
        else:
            st.session = self
            self.identity[type(obj), st.key] = obj

    def add_all(self, objs):
        for o in objs:
            self.add(o)

    def delete(self, obj):
        if obj._sa.key is None:
            raise InvalidRequestError('Instance is not persisted')
        obj._sa.session = self
        self.identity.setdefault((type(obj), obj._sa.key), obj)
        if not any(o is obj for o in self.deleted):
            self.deleted.append(obj)

    def flush(self, objects=None):
        if self.flushing:
            return
        dirty = [o for o in self.identity.values() if o._sa.dirty]
        if not (self.new or dirty or self.deleted):
            return
        self._check()
        self.flushing = True
        try:
            done = []

            def ins(o):
                if any(o is d for d in done):
                    return
                done.append(o)
                for r in type(o)._rels.values():
                    if not r.many:
                        p = o._sa.rels.get(r.name)
                        if p is not None and p._sa.key is None:
                            ins(p)
                        if p is not None:
                            o._sa.vals[r.fkcol.name] = p._sa.key
                self._insert(o)
            for o in list(self.new):
                ins(o)
            self.new = []
            for o in sorted(dirty, key=lambda o: (type(o).__name__, repr(o._sa.key))):
                if not any(o is d for d in self.deleted):
                    self._update(o)
            for o in list(self.deleted):
                self._delete(o)
            self.deleted = []
        except BaseException:
            self._end()
            self.failed = True
            raise
        finally:
            self.flushing = False

    def _autoflush(self):
        if not self.noflush:
            self.flush()

    @property
    def no_autoflush(self):
        s = self

        class NF:
            def __enter__(self):
                s.noflush += 1
                return s

            def __exit__(self, *a):
                s.noflush -= 1
        return NF()

    def commit(self):
        self._check()
        self.flush()
        try:
            step('commit')
        except BaseException:
            self._end()
            self.failed = True
            raise
        if self.txn is not None:
            ENGINE.tables.clear()
            ENGINE.tables.update(self.txn)
            self._end()
        self._expire()
        step('committed')

    def _expire(self):
        for o in self.identity.values():
            o._sa.expired = True
            o._sa.rels = {}

    def rollback(self):
        for (cls, k), o in list(self.identity.items()):
            o._sa.dirty = set()
            if k not in ENGINE.tables.get(cls.__tablename__, {}):
                del self.identity[cls, k]
                o._sa.session = None
        for o in self.new:
            o._sa.session = None
        self.new, self.deleted = [], []
        self._end()
        self.failed = False
        self._expire()
        step('rollback')

    def close(self):
        for o in list(self.identity.values()) + self.new:
            o._sa.session = None
        self.identity, self.new, self.deleted = {}, [], []
        self._end()
        self.failed = False

    def remove(self):
        self.close()

    def expire(self, obj, names=None):
        obj._sa.expired = True
        obj._sa.dirty = set()
        obj._sa.rels = {}

    def expire_all(self):
        self._expire()

    def refresh(self, obj, *a, **k):
        self._autoflush()
        obj._sa.dirty = set()
        obj._sa.rels = {}
        obj._sa.load(obj)

    def expunge(self, obj):
        self.identity.pop((type(obj), obj._sa.key), None)
        obj._sa.session = None

    def merge(self, obj):
        cur = self.get(type(obj), obj._sa.vals.get(type(obj)._pk.name))
        if cur is None:
            cur = type(obj)()
            self.add(cur)
        for n, v in obj._sa.vals.items():
            setattr(cur, n, v)
        return cur

    def begin(self, *a, **k):
        s = self

        class B:
            def __enter__(self):
                return s

            def __exit__(self, t, v, tb):
                if t is None:
                    s.commit()
                else:
                    s.rollback()
        return B()

    def begin_nested(self):
        s = self
        s.flush()
        s._write('savepoint')
        saved = {t: dict(r) for t, r in s.txn.items()}

        class B:
            def __enter__(self):
                return self

            def commit(self):
                s.flush()

            def rollback(self):
                if s.txn is None:
                    s._write('savepoint')
                s.txn = saved
                s.failed = False
                s.new = []
                s._expire()

            def __exit__(self, t, v, tb):
                if t is None:
                    try:
                        self.commit()
                    except BaseException:
                        self.rollback()
                        raise
                else:
                    self.rollback()
        return B()

    @property
    def dirty(self):
        return [o for o in self.identity.values() if o._sa.dirty]

    @property
    def is_active(self):
        return not self.failed

    def in_transaction(self):
        return self.txn is not None

    # --- queries
    def query(self, *ents):
        return Query(self, *ents)

    def get(self, cls, key, **k):
        configure_all()
        key = conv(cls._pk, key)
        o = self.identity.get((cls, key))
        if o is not None and not o._sa.expired:
            return o
        self._autoflush()
        row = self._row(cls, key)
        return None if row is None else self._obj(cls, row)

    def _obj(self, cls, row, fresh=False):
        key = row[cls._pk.name]
        o = self.identity.get((cls, key))
        if o is None:
            o = object.__new__(cls)
            o._sa = State()
            o._sa.key, o._sa.session, o._sa.vals = key, self, dict(row)
            self.identity[cls, key] = o
        elif o._sa.expired or fresh:
            keep = {n: o._sa.vals[n] for n in o._sa.dirty}
            o._sa.vals = dict(row)
            o._sa.vals.update(keep)
            o._sa.expired = False
            o._sa.rels = {}
        return o

    def execute(self, stmt, *a, **k):
        return stmt.run(self)

    def scalars(self, stmt, *a, **k):
        return stmt.run(self).scalars()

    def scalar(self, stmt, *a, **k):
        return stmt.run(self).scalar()


def configure_all():
    for d in DBS:
        configure(d.reg)


class Query:
    def __init__(self, session, *ents):
        self.s, self.ents = session, ents
        self.conds, self.orders, self.lim, self.off, self.fresh = [], [], None, 0, False
        configure_all()

    def _copy(self):
        q = copy.copy(self)
        q.conds, q.orders = list(self.conds), list(self.orders)
        return q

    @property
    def cls(self):
        e = self.ents[0]
        if isinstance(e, Func):
            e = e.arg
        return e.cls if isinstance(e, Column) else e

    def filter_by(self, **kw):
        q = self._copy()
        for k, v in kw.items():
            a = getattr(self.cls, k)
            if isinstance(a, Relationship):
                q.conds.append(a.fkcol == v._sa.key)
            else:
                q.conds.append(a == v)
        return q

    def filter(self, *cs):
        q = self._copy()
        q.conds += list(cs)
        return q

    where = filter

    def order_by(self, *os_):
        q = self._copy()
        q.orders += [o if isinstance(o, Order) else Order(o, False) for o in os_ if o is not None]
        return q

    def limit(self, n):
        q = self._copy()
        q.lim = n
        return q

    def offset(self, n):
        q = self._copy()
        q.off = n
        return q

    def with_for_update(self, *a, **k):
        return self.populate_existing()

    def populate_existing(self):
        q = self._copy()
        q.fresh = True
        return q

    def options(self, *a):
        return self

    execution_options = enable_eagerloads = options

    def with_entities(self, *ents):
        q = self._copy()
        q.ents = ents
        return q

    def _rows(self):
        self.s._autoflush()
        self.s._check()
        step('select')
        rows = [r for r in self.s._tables().get(self.cls.__tablename__, {}).values()
                if all(c.test(r) for c in self.conds)]
        for o in reversed(self.orders):
            rows.sort(key=lambda r: (o.e.value(r) is not None, o.e.value(r)), reverse=o.rev)
        rows = rows[self.off:]
        return rows if self.lim is None else rows[:self.lim]

    def all(self):
        rows = self._rows()
        if len(self.ents) == 1 and isinstance(self.ents[0], type):
            return [self.s._obj(self.cls, r, self.fresh) for r in rows]
        if isinstance(self.ents[0], Func):
            f = self.ents[0]
            vs = [1 if not isinstance(f.arg, Column) else f.arg.value(r) for r in rows]
            vs = [v for v in vs if v is not None]
            return [({'count': len, 'max': lambda x: max(x, default=None), 'min': lambda x: min(x, default=None),
                      'sum': lambda x: sum(x) if x else None}[f.fname](vs),)]
        return [tuple(e.value(r) for e in self.ents) for r in rows]

    def __iter__(self):
        return iter(self.all())

    def first(self):
        xs = self.limit(1).all()
        return xs[0] if xs else None

    def one_or_none(self):
        xs = self.all()
        if len(xs) > 1:
            raise MultipleResultsFound('Multiple rows were found')
        return xs[0] if xs else None

    def one(self):
        x = self.one_or_none()
        if x is None:
            raise NoResultFound('No row was found')
        return x

    def scalar(self):
        x = self.one_or_none()
        return x[0] if isinstance(x, tuple) else x

    def first_or_404(self, *a, **k):
        x = self.first()
        if x is None:
            raise NotFound()
        return x

    def get(self, key):
        return self.s.get(self.cls, key)

    def get_or_404(self, key, *a, **k):
        x = self.get(key)
        if x is None:
            raise NotFound()
        return x

    def count(self):
        return len(self._rows())

    def exists(self):
        return Exists(self)

    def delete(self, synchronize_session=True):
        self.s._autoflush()
        cls = self.cls
        try:
            self.s._write('delete')
        except OperationalError:
            raise
        t = self.s.txn.setdefault(cls.__tablename__, {})
        keys = [k for k, r in t.items() if all(c.test(r) for c in self.conds)]
        for k in keys:
            del t[k]
            o = self.s.identity.get((cls, k))
            if o is not None and synchronize_session:
                self.s.identity.pop((cls, k))
                o._sa.session = None
        return len(keys)

    def update(self, values, synchronize_session=True):
        self.s._autoflush()
        cls = self.cls
        self.s._write('update')
        t = self.s.txn.setdefault(cls.__tablename__, {})
        keys = [k for k, r in t.items() if all(c.test(r) for c in self.conds)]
        for k in keys:
            row = dict(t[k])
            for c, v in values.items():
                c = c if isinstance(c, Column) else cls._cols[c]
                row[c.name] = conv(c, v.value(t[k]) if isinstance(v, Expr) else v)
            self.s._unique(cls, t, row, k)
            t[k] = row
            o = self.s.identity.get((cls, k))
            if o is not None and synchronize_session:
                o._sa.expired = True
        return len(keys)


class Exists(Cond):
    def __init__(self, q):
        self.q = q


class Result:
    def __init__(self, rows, ents=None, rowcount=0):
        self.rows, self.rowcount = rows, rowcount

    def _t(self):
        return [r if isinstance(r, tuple) else (r,) for r in self.rows]

    def scalars(self):
        return Result([r[0] for r in self._t()])

    def all(self):
        return list(self.rows)

    fetchall = all

    def first(self):
        return self.rows[0] if self.rows else None

    fetchone = first

    def one_or_none(self):
        if len(self.rows) > 1:
            raise MultipleResultsFound()
        return self.first()

    def one(self):
        if not self.rows:
            raise NoResultFound()
        return self.one_or_none()

    def scalar(self):
        return self._t()[0][0] if self.rows else None

    def scalar_one_or_none(self):
        if len(self.rows) > 1:
            raise MultipleResultsFound()
        return self.scalar()

    def scalar_one(self):
        if not self.rows:
            raise NoResultFound()
        return self.scalar_one_or_none()

    def __iter__(self):
        return iter(self._t() if self.rows and not isinstance(self.rows[0], tuple) else self.rows)

    def unique(self):
        return self


class Stmt:
    def __init__(self, kind, *ents):
        self.kind, self.ents, self.ops, self.vals = kind, ents, [], {}

    def __getattr__(self, n):
        if n.startswith('_') or not hasattr(Query, n):
            raise AttributeError(n)

        def f(*a, **k):
            s = copy.copy(self)
            s.ops = self.ops + [(n, a, k)]
            return s
        return f

    def values(self, *a, **kw):
        s = copy.copy(self)
        s.vals = dict(self.vals, **kw)
        if a:
            s.vals.update(a[0])
        return s

    def run(self, session):
        q = Query(session, *self.ents)
        for n, a, k in self.ops:
            q = getattr(q, n)(*a, **k)
        if self.kind == 'select':
            return Result(q.all())
        if self.kind == 'delete':
            return Result([], rowcount=q.delete())
        if self.kind == 'update':
            return Result([], rowcount=q.update(self.vals))
        o = self.ents[0](**self.vals)
        session.add(o)
        session.flush()
        return Result([], rowcount=1)


def select(*e):
    return Stmt('select', *e)


def delete(*e):
    return Stmt('delete', *e)


def update(*e):
    return Stmt('update', *e)


def insert(*e):
    return Stmt('insert', *e)


# ------------------------------------------------------------------ flask_sqlalchemy
def current():
    s = getattr(ctx, 'session', None)
    if s is None:
        s = ctx.session = Session()
    return s


class ScopedSession:
    def __call__(self):
        return current()

    def remove(self):
        s = getattr(ctx, 'session', None)
        if s is not None:
            s.close()
        ctx.session = None

    def __getattr__(self, n):
        return getattr(current(), n)


DBS = []


class SQLAlchemy:
    Integer, BigInteger, SmallInteger, String, Text, Unicode = Integer, BigInteger, SmallInteger, String, Text, Unicode
    LargeBinary, Boolean, Float, DateTime = LargeBinary, Boolean, Float, DateTime
    Column, ForeignKey = Column, ForeignKey
    func = func
    select, delete, update, insert = staticmethod(select), staticmethod(delete), staticmethod(update), \
        staticmethod(insert)

    def __init__(self, app=None, **k):
        self.reg = {}
        self.Model = make_model(self.reg)
        self.session = ScopedSession()
        DBS.append(self)

    def init_app(self, app):
        pass

    @staticmethod
    def relationship(*a, **k):
        return Relationship(*a, **k)

    @staticmethod
    def backref(name, **k):
        return (name, k)

    @staticmethod
    def and_(*a):
        return And(*a)

    @staticmethod
    def or_(*a):
        return Or(*a)

    @staticmethod
    def not_(a):
        return NotC(a)

    @staticmethod
    def UniqueConstraint(*a, **k):
        return None

    Index = UniqueConstraint

    def create_all(self, *a, **k):
        configure(self.reg)
        for c in self.reg.values():
            ENGINE.tables.setdefault(c.__tablename__, {})

    def drop_all(self, *a, **k):
        for c in self.reg.values():
            ENGINE.tables.pop(c.__tablename__, None)


# ------------------------------------------------------------------ flask
class MultiDict(dict):
    def __getitem__(self, k):
        try:
            return dict.__getitem__(self, k)
        except KeyError:
            raise BadRequestKeyError(k) from None

    def get(self, k, default=None, type=None):
        v = dict.get(self, k)
        if v is None:
            return default
        if type is not None:
            try:
                return type(v)
            except (ValueError, TypeError):
                return default
        return v

    def getlist(self, k):
        return [dict.__getitem__(self, k)] if k in self else []

    def to_dict(self, flat=True):
        return dict(self)


class Request:
    def __init__(self, path, form):
        self.path, self.method = path, 'POST'
        self.form = MultiDict(form)
        self.args = MultiDict()
        self.values = self.form
        self.headers = {'Origin': 'http://localhost:5000', 'Host': 'localhost:5000'}
        self.cookies = {}
        self.json = None
        self.data = b''
        self.is_json = False
        self.remote_addr = '127.0.0.1'
        self.host = 'localhost:5000'
        self.host_url = self.url_root = 'http://localhost:5000/'
        self.url = 'http://localhost:5000' + path
        self.endpoint = None

    def get_json(self, *a, **k):
        return None

    def get_data(self, *a, **k):
        return b''


class _Proxy:
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _o(self):
        o = getattr(ctx, self._n, None)
        if o is None:
            raise RuntimeError('Working outside of request context.')
        return o

    def __getattr__(self, a):
        return getattr(self._o(), a)

    def __setattr__(self, a, v):
        setattr(self._o(), a, v)

    def __contains__(self, k):
        return k in self._o()

    def __getitem__(self, k):
        return self._o()[k]

    def __setitem__(self, k, v):
        self._o()[k] = v


class G(types.SimpleNamespace):
    def get(self, n, d=None):
        return getattr(self, n, d)

    def pop(self, n, d=None):
        return self.__dict__.pop(n, d)

    def __contains__(self, n):
        return n in self.__dict__


class Response:
    def __init__(self, response='', status=200, headers=None, mimetype=None, content_type=None, **k):
        self.data = response if isinstance(response, str) else str(response)
        self.status_code = int(str(status).split()[0])
        self.headers = dict(headers or {})

    def set_cookie(self, *a, **k):
        pass

    def get_data(self, as_text=True):
        return self.data


def make_response(rv=None, *rest):
    if rest:
        rv = (rv,) + rest
    status, headers = 200, {}
    if isinstance(rv, tuple):
        if len(rv) == 3:
            rv, status, headers = rv
        elif len(rv) == 2:
            if isinstance(rv[1], dict):
                rv, headers = rv
            else:
                rv, status = rv
    if isinstance(rv, Response):
        if status != 200:
            rv.status_code = int(str(status).split()[0])
        rv.headers.update(headers or {})
        return rv
    if isinstance(rv, (dict, list)):
        rv = json.dumps(rv)
    if isinstance(rv, bytes):
        rv = rv.decode('utf-8', 'replace')
    if rv is None or not isinstance(rv, str):
        raise TypeError('The view function did not return a valid response')
    return Response(rv, int(str(int(status)).split()[0]), headers)


def jsonify(*a, **k):
    return Response(json.dumps(a[0] if a else k), 200, {'Content-Type': 'application/json'})


def abort(code, *a, **k):
    e = HTTPException(*a[:1])
    e.code = code
    raise e


APPS = []


class Flask:
    def __init__(self, name, *a, **k):
        self.name = name
        self.config = {}
        self.rules = {}
        self.handlers = {}
        self.before, self.after, self.teardown, self.cteardown = [], [], [], []
        self.logger = types.SimpleNamespace(**{n: (lambda *a, **k: None) for n in (
            'debug', 'info', 'warning', 'error', 'exception', 'critical')})
        self.debug = False
        self.secret_key = None
        APPS.append(self)

    def route(self, rule, methods=None, **k):
        def deco(f):
            for m in methods or ['GET']:
                self.rules[m.upper(), rule] = f
            return f
        return deco

    def add_url_rule(self, rule, endpoint=None, view_func=None, methods=None, **k):
        self.route(rule, methods)(view_func)

    def post(self, rule, **k):
        return self.route(rule, ['POST'])

    def get(self, rule, **k):
        return self.route(rule, ['GET'])

    def errorhandler(self, what):
        def deco(f):
            self.handlers[what] = f
            return f
        return deco

    register_error_handler = None

    def before_request(self, f):
        self.before.append(f)
        return f

    def after_request(self, f):
        self.after.append(f)
        return f

    def teardown_request(self, f):
        self.teardown.append(f)
        return f

    teardown_appcontext = teardown_request

    def before_first_request(self, f):
        return f

    def app_context(self):
        class C:
            def __enter__(s):
                return self

            def __exit__(s, *a):
                pass
        return C()

    def run(self, *a, **k):
        raise RuntimeError('not served for real')

    # --- the server side of the simulated network
    def dispatch(self, path, form):
        """-> (status, body). Escaping BaseExceptions end the connection without an answer."""
        ctx.request = Request(path, form)
        ctx.g = G()
        ctx.app = self
        ctx.session = None
        ctx.sess = {}
        try:
            try:
                f = self.rules.get(('POST', path))
                if f is None:
                    raise NotFound()
                rv = None
                for b in self.before:
                    rv = b()
                    if rv is not None:
                        break
                if rv is None:
                    rv = f()
                r = make_response(rv)
                for a in reversed(self.after):
                    r = a(r)
            except Exception as e:
                r = self._error(e)
            return r.status_code, r.data
        except sched.SimCrash:
            raise
        finally:
            if not getattr(ENGINE, 'crashed', False):
                for t in self.teardown:
                    t(None)
                s = getattr(ctx, 'session', None)
                if s is not None:
                    s.close()
            ctx.request = ctx.g = ctx.session = None

    def _error(self, e):
        code = e.code if isinstance(e, HTTPException) else None
        for k in (code, *type(e).__mro__):
            if k in self.handlers:
                return make_response(self.handlers[k](e))
        if code is not None:
            if e.response is not None:
                return e.response
            return Response(str(e), code)
        if 500 in self.handlers:
            return make_response(self.handlers[500](e))
        return Response('Internal Server Error', 500)


def render_template(name, **k):
    return '<html>%s</html>' % name


def install():
    """Makes the stand-ins importable under the real names."""
    me = sys.modules[__name__]

    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
        return m
    excs = {k: v for k, v in vars(me).items() if isinstance(v, type) and issubclass(v, SQLAlchemyError)}
    mod('flask', Flask=Flask, render_template=render_template, request=_Proxy('request'), g=_Proxy('g'),
        session=_Proxy('sess'), current_app=_Proxy('app'), Response=Response, make_response=make_response,
        jsonify=jsonify, abort=abort, redirect=lambda u, code=302: Response('', code),
        url_for=lambda e, **k: '/' + e)
    mod('flask_sqlalchemy', SQLAlchemy=SQLAlchemy)
    exc = mod('sqlalchemy.exc', **excs)
    ormexc = mod('sqlalchemy.orm.exc', **excs)
    orm = mod('sqlalchemy.orm', relationship=Relationship, backref=SQLAlchemy.backref, exc=ormexc, Session=Session,
              joinedload=lambda *a: None, selectinload=lambda *a: None)
    mod('sqlalchemy', exc=exc, orm=orm, and_=And, or_=Or, not_=NotC, func=func, select=select, delete=delete,
        update=update, insert=insert, Column=Column, ForeignKey=ForeignKey, Integer=Integer, String=String,
        Boolean=Boolean, Float=Float, LargeBinary=LargeBinary, DateTime=DateTime, Text=Text, BigInteger=BigInteger,
        desc=lambda e: e.desc(), asc=lambda e: e.asc(), text=lambda s: s, UniqueConstraint=lambda *a, **k: None)
    we = mod('werkzeug.exceptions', HTTPException=HTTPException, BadRequest=BadRequest, NotFound=NotFound,
             BadRequestKeyError=BadRequestKeyError)
    mod('werkzeug', exceptions=we)


functools  # noqa: B018
