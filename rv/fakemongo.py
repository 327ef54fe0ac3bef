"""In-memory stand-in for the pymongo client surface a task store uses (no server offline).

Semantics follow MongoDB for the values stored here (str ids, float/None next_run_time, bytes):
comparison operators never match None, None sorts first, ids are unique."""
from __future__ import annotations

import copy


class _Result:
    def __init__(self, **kw):
        self.__dict__.update(kw, acknowledged=True)


def _match(doc, flt):
    if flt is None:
        return True
    if not isinstance(flt, dict):
        flt = {"_id": flt}
    for key, cond in flt.items():
        if key == "$and":
            if not all(_match(doc, f) for f in cond):
                return False
            continue
        if key == "$or":
            if not any(_match(doc, f) for f in cond):
                return False
            continue
        val = doc.get(key)
        if isinstance(cond, dict) and cond and all(k.startswith("$") for k in cond):
            for op, arg in cond.items():
                if op == "$eq":
                    ok = val == arg
                elif op == "$ne":
                    ok = val != arg
                elif op == "$in":
                    ok = val in list(arg)
                elif op == "$nin":
                    ok = val not in list(arg)
                elif op == "$exists":
                    ok = (key in doc) == bool(arg)
                elif op == "$type":
                    ok = val is not None
                elif op in ("$lt", "$lte", "$gt", "$gte"):
                    if val is None or arg is None:
                        ok = op in ("$lte", "$gte") and val is None and arg is None
                    else:
                        ok = {"$lt": val < arg, "$lte": val <= arg, "$gt": val > arg, "$gte": val >= arg}[op]
                else:
                    raise NotImplementedError(op)
                if not ok:
                    return False
        elif val != cond:
            return False
    return True


def _project(doc, projection):
    doc = copy.copy(doc)
    if not projection:
        return doc
    if isinstance(projection, dict):
        inc = [k for k, v in projection.items() if v]
        exc = [k for k, v in projection.items() if not v]
        if inc:
            keys = set(inc) | ({"_id"} - set(exc))
            return {k: v for k, v in doc.items() if k in keys}
        return {k: v for k, v in doc.items() if k not in exc}
    keys = set(projection) | {"_id"}
    return {k: v for k, v in doc.items() if k in keys}


def _sortkey(v):
    return (0, 0) if v is None else (1, v)


class _Cursor:
    def __init__(self, docs):
        self.docs = docs

    def sort(self, key, direction=1):
        spec = key if isinstance(key, (list, tuple)) and not isinstance(key, str) else [(key, direction)]
        for k, d in reversed(list(spec)):
            self.docs.sort(key=lambda x: _sortkey(x.get(k)), reverse=d == -1)
        return self

    def limit(self, n):
        if n:
            self.docs = self.docs[:n]
        return self

    def skip(self, n):
        self.docs = self.docs[n:]
        return self

    def __iter__(self):
        return iter(self.docs)

    def __next__(self):
        if not self.docs:
            raise StopIteration
        return self.docs.pop(0)

    def close(self):
        pass


class FakeCollection:
    def __init__(self):
        self.docs = {}

    def create_index(self, *a, **k):
        return "idx"

    def _find(self, flt):
        return [d for d in self.docs.values() if _match(d, flt)]

    def find(self, filter=None, projection=None, skip=0, limit=0, sort=None, **k):
        cur = _Cursor(self._find(filter))
        if sort:
            cur.sort(sort)
        cur.skip(skip).limit(limit)
        cur.docs = [_project(d, projection) for d in cur.docs]
        return cur

    def find_one(self, filter=None, projection=None, sort=None, **k):
        for d in self.find(filter, projection, limit=1, sort=sort):
            return d
        return None

    def insert_one(self, doc):
        from pymongo.errors import DuplicateKeyError

        if doc["_id"] in self.docs:
            raise DuplicateKeyError("dup")
        self.docs[doc["_id"]] = dict(doc)
        return _Result(inserted_id=doc["_id"])

    def insert_many(self, docs):
        for d in docs:
            self.insert_one(d)

    def _apply(self, doc, update):
        for op, vals in update.items():
            if op == "$set":
                doc.update(vals)
            elif op == "$unset":
                for k in vals:
                    doc.pop(k, None)
            else:
                raise NotImplementedError(op)

    def update_one(self, flt, update, upsert=False):
        m = self._find(flt)
        if m:
            self._apply(m[0], update)
        elif upsert:
            d = dict(flt)
            self._apply(d, update)
            self.docs[d["_id"]] = d
        return _Result(matched_count=min(1, len(m)), modified_count=min(1, len(m)))

    def update_many(self, flt, update):
        m = self._find(flt)
        for d in m:
            self._apply(d, update)
        return _Result(matched_count=len(m), modified_count=len(m))

    def replace_one(self, flt, doc, upsert=False):
        m = self._find(flt)
        if m:
            _id = m[0]["_id"]
            self.docs[_id] = {"_id": _id, **doc}
        elif upsert:
            self.docs[doc["_id"]] = dict(doc)
        return _Result(matched_count=min(1, len(m)), modified_count=min(1, len(m)))

    def find_one_and_update(self, flt, update, **k):
        m = self._find(flt)
        if not m:
            return None
        old = dict(m[0])
        self._apply(m[0], update)
        return old

    def find_one_and_delete(self, flt, **k):
        m = self._find(flt)
        return self.docs.pop(m[0]["_id"]) if m else None

    def delete_one(self, flt):
        m = self._find(flt)[:1]
        for d in m:
            del self.docs[d["_id"]]
        return _Result(deleted_count=len(m))

    def delete_many(self, flt):
        m = self._find(flt)
        for d in m:
            del self.docs[d["_id"]]
        return _Result(deleted_count=len(m))

    def count_documents(self, flt):
        return len(self._find(flt))

    def drop(self):
        self.docs.clear()


class _DB(dict):
    def __missing__(self, k):
        self[k] = FakeCollection()
        return self[k]

    def get_collection(self, k, **kw):
        return self[k]


class FakeMongoClient(dict):
    def __missing__(self, k):
        self[k] = _DB()
        return self[k]

    def get_database(self, k, **kw):
        return self[k]

    def close(self):
        pass

    def __bool__(self):
        return True
