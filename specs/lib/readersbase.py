"""Files on a scratch directory and a stand-in for the network (C26)"""
from pvc.api import *
import io
import json
import os
import tempfile
import warnings
from unittest import mock
import numpy as np
import pandas as pd

I_ = 'pvlib.iotools.'
SEED = dict(seed=P(0, 1e6))


def rng_of(seed):
    return np.random.default_rng(int(seed*7919) % 2**32)


def io_(name):
    import importlib
    return importlib.import_module(I_ + name)


def utc(index):
    """seconds since 1970, whatever the resolution"""
    index = pd.DatetimeIndex(index)
    if index.tz is not None:
        index = index.tz_convert('UTC').tz_localize(None)
    return np.asarray((index - pd.Timestamp('1970-01-01'))
                      / pd.Timedelta(seconds=1))


def seconds(stamps, offset=0):
    """of local times with the given offset from UTC (hours)"""
    return utc(pd.DatetimeIndex(stamps)) - offset*3600


def near(a, b, tol=1e-9):
    return bool(np.all(eq(np.asarray(a, float), np.asarray(b, float),
                          rtol=tol, atol=tol)))


def num(r, lo, hi, digits, n=None):
    return np.round(r.uniform(lo, hi, n), digits)


class Scratch:
    """a file that is gone afterwards"""

    def __init__(self, text, name='data.txt', mode='w'):
        self.text, self.name, self.mode = text, name, mode

    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory()
        path = os.path.join(self.dir.name, self.name)
        with open(path, self.mode) as f:
            f.write(self.text)
        return path

    def __exit__(self, *a):
        self.dir.cleanup()


class Reply:
    """what requests gives back"""

    def __init__(self, text='', js=None, ok=True, content=None):
        self.text, self._js, self.ok = text, js, ok
        self.status_code = 200 if ok else 400
        self.content = text.encode() if content is None else content

    def json(self):
        return json.loads(json.dumps(self._js)) if self._js is not None \
            else json.loads(self.text)

    def raise_for_status(self):
        import requests
        if not self.ok:
            raise requests.HTTPError('refused', response=self)


class Web:
    """stands in for requests.get and requests.post: no network, and the
    calls are kept"""

    def __init__(self, *replies):
        self.replies, self.calls = list(replies), []

    def __call__(self, url, *a, **k):
        self.calls.append((url, a, k))
        return self.replies.pop(0) if len(self.replies) > 1 else \
            self.replies[0]

    def __enter__(self):
        self.p = [mock.patch('requests.get', self),
                  mock.patch('requests.post', self)]
        for p in self.p:
            p.__enter__()
        return self

    def __exit__(self, *a):
        for p in self.p:
            p.__exit__(*a)


def params(web, k=0):
    return web.calls[k][2]['params']


def remote(read, text, url, **k):
    """(addresses asked for, result) of reading a file from a server"""
    import sys
    asked = []

    def urlopen(req, *a, **k):
        asked.append(getattr(req, 'full_url', req))
        return io.BytesIO(text.encode())

    def get(u, *a, **k):
        asked.append(u)
        return Reply(text)
    with mock.patch('requests.get', get), mock.patch(
            'urllib.request.urlopen', urlopen), mock.patch.object(
                sys.modules[read.__module__], 'urlopen', urlopen,
                create=True):
        return asked, read(url, **k)


def served(read, text, url, here, **k):
    """the file at the address is the file on the disk"""
    asked, (data, meta) = remote(read, text, url, **k)
    return both(asked == [url], data.equals(here[0]),
                str(meta) == str(here[1]))
