"""Indexes stored in ZODB: helpers shared by the persistence checks."""
import logging
import os
import shutil
import tempfile

import transaction
import ZODB
from ZODB.DemoStorage import DemoStorage
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError

from vf import boot

__all__ = ['ConflictError', 'Database', 'store', 'load']

logging.disable(logging.CRITICAL)
_n = [0]


def tmpdir():
    _n[0] += 1
    return tempfile.mkdtemp(prefix=f'p{os.getpid()}-{_n[0]}-',
                            dir=boot.scratch())


class Database:
    """A database in memory or in a file of its own scratch directory."""

    def __init__(self, storage='demo', cache_size=400):
        self.kind, self.cache_size = storage, cache_size
        self.dir = tmpdir() if storage == 'file' else None
        self.path = self.dir and os.path.join(self.dir, 'Data.fs')
        self.db = self.opened()

    def opened(self, path=None):
        if self.kind == 'file':
            st = FileStorage(path or self.path)
        elif self.kind == 'map':
            st = MappingStorage()
        else:
            st = DemoStorage()
        return ZODB.DB(st, cache_size=self.cache_size, pool_size=20)

    def restart(self):
        """file storage only: close everything and open the file again"""
        self.db.close()
        self.db = self.opened()

    def open(self):
        tm = transaction.TransactionManager()
        return self.db.open(transaction_manager=tm), tm

    def size(self):
        return os.path.getsize(self.path)

    def truncated(self, n):
        """A database on a copy of the file cut off after n bytes."""
        d = tmpdir()
        p = os.path.join(d, 'Data.fs')
        with open(self.path, 'rb') as f, open(p, 'wb') as g:
            g.write(f.read(n))
        return self.opened(p), d

    def close(self):
        self.db.close()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def store(conn, name, real):
    for k, o in real.roots.items():
        conn.root()[f'{name}-{k}'] = o


def load(conn, name, kind, cfg):
    root = conn.root()
    roots = {k[len(name) + 1:]: root[k] for k in list(root.keys())
             if k.startswith(name + '-')}
    return kind.wrap(cfg, roots)
