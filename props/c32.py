"""C32: raw data are downloaded when missing, and only complete files used."""
import datetime as dt
import io
import os
import shutil
import urllib.error
import urllib.request
import urllib.response
import warnings
import zipfile
from email.message import Message

import numpy as np
from hypothesis import strategies as st

from pbt.core import req, req_close, req_equal, sub
from props.c19 import CODES, COLS, DS, ninja_csv, scratch_dataset

from demod.datasets.CREST.loader import Crest
from demod.datasets.DESTATIS.loader import Destatis
from demod.datasets.Germany.loader import GermanDataHerus
from demod.datasets.GermanTOU.loader import GTOU
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
from demod.datasets.tracebase.loader import Tracebase


class Lost(OSError):
    """The connection is lost."""


class Body(io.RawIOBase):
    def __init__(self, content, fail_at):
        self.data, self.pos, self.fail_at = content, 0, fail_at

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data)
        if self.fail_at is not None:
            end = min(end, self.fail_at)
            if self.pos >= end:
                raise Lost("connection lost")
        chunk = self.data[self.pos:min(self.pos + len(b), end)]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


class Net(urllib.request.OpenerDirector):
    """Stands for the network: serves self.content or fails."""

    def __init__(self):
        super().__init__()
        self.urls, self.content, self.fault = [], b"", None

    def open(self, fullurl, data=None, timeout=None):
        url = fullurl if isinstance(fullurl, str) else fullurl.full_url
        self.urls.append(url)
        if self.fault == "unreachable":
            raise urllib.error.URLError("unreachable")
        if self.fault == "missing":
            raise urllib.error.HTTPError(url, 404, "Not Found", Message(),
                                         None)
        fail_at = None
        if self.fault is not None:
            fail_at = int(len(self.content) * self.fault)
        h = Message()
        h["Content-Length"] = str(len(self.content))
        return urllib.response.addinfourl(
            io.BufferedReader(Body(self.content, fail_at), 16), h, url, 200)


class network:
    def __enter__(self):
        self.old = urllib.request._opener
        self.net = Net()
        urllib.request.install_opener(self.net)
        return self.net

    def __exit__(self, *exc):
        urllib.request.install_opener(self.old)


FAULT = st.sampled_from([None, None, None, "unreachable", "missing",
                         0.0, 0.5, 0.99])
FAILED = (Lost, urllib.error.URLError, FileNotFoundError)


def attempt(net, content, fault, make):
    """(loader or None if the download failed, urls asked)"""
    net.urls.clear()
    net.content, net.fault = content, fault
    try:
        out = make()
    except FAILED as e:
        req(net.urls and fault is not None, "fails without any network "
            "failure: %r", e)
        return None, list(net.urls)
    req(not (net.urls and fault is not None),
        "the failure of the download is not reported")
    return out, list(net.urls)


# ------------------------------------------------------------------ ninja
@sub("C32", "climate", st.fixed_dictionaries({
    "ops": st.lists(st.tuples(
        st.sampled_from(["germany", "switzerland", "DE", "FR"]),
        st.sampled_from(["population", "population", "land_area"]),
        st.booleans(), FAULT, st.booleans()), min_size=2, max_size=8),
    "rows": st.integers(1, 30), "seed": st.integers(0, 10 ** 6)}),
     120, 3000, budget=80,
     rule="a download fails or an update replaces loaded data")
def climate(case):
    rng = np.random.RandomState(case["seed"])
    raw, tags = {}, set()
    with scratch_dataset() as ds, network() as net, \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = type("Stub", (NinjaRenewablesClimate,),
                   {"DATASET_NAME": ds.name})
        for i, (country, w, update, fault, load) in enumerate(case["ops"]):
            key = CODES[country], w
            rows = rng.randint(0, 10 ** 6, (case["rows"], len(COLS))) / 64.
            # read at the end as well: what is there must remain usable
            loader, urls = attempt(
                net, ninja_csv(rows).encode(), fault, lambda: cls(
                    country, update_raw_data=update, weighted_type=w))
            what = "step %d (%s, %s, update %s, fault %s)" % (
                i, country, w, update, fault)
            if key in raw and not update:
                req(not urls, "%s: downloads again %s", what, urls)
            else:
                req(len(urls) == 1, "%s: asks for %s", what, urls)
                req(key[0] in urls[0] and w in urls[0],
                    "%s: asks for %s", what, urls[0])
                if fault is None:
                    tags.add("update" if key in raw else "first")
                    raw[key] = rows
                else:
                    tags.add("fault")
            if loader is not None and load:
                got = loader.load_historical_climate_data(
                    dt.datetime(2014, 1, 1))
                req_equal(got["outside_temperature"],
                          raw[key][:, COLS.index("temperature")],
                          what + ": temperature")
                tags.add("loaded")
        for (code, w), rows in raw.items():
            loader, urls = attempt(net, b"", "unreachable", lambda: cls(
                code, weighted_type=w))
            req(not urls, "downloads again %s", urls)
            req_equal(loader.load_historical_climate_data(
                dt.datetime(2014, 1, 1))["outside_temperature"],
                rows[:, COLS.index("temperature")],
                "finally, %s weighted by %s: temperature" % (code, w))
    return sorted(tags) if tags & {"fault", "update"} else []


# -------------------------------------------------------------- tracebase
def trace_zip(loads):
    """An archive of recordings, one value per second."""
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for name in loads:
            z.writestr(
                "tracebase-master/complete/Lamp/" + name, "".join(
                    "01/01/2012 00:%02d:%02d;%d;0\n" % (
                        s // 60, s % 60, x)
                    for s, x in enumerate(loads[name])))
    return b.getvalue()


def averages(loads, k):
    """Mean of each k seconds, nothing after the end."""
    loads = np.append(loads, np.zeros(-len(loads) % k))
    return loads.reshape(-1, k).mean(axis=1)


@sub("C32", "profiles", st.fixed_dictionaries({
    "ops": st.lists(st.tuples(st.booleans(), FAULT, st.sampled_from(
        [1, 1, 60, 3601, 86401]), st.integers(0, 2)),
        min_size=1, max_size=7),
    "seed": st.integers(0, 10 ** 6)}), 100, 1500, budget=60,
     rule="a download fails or an update replaces loaded data")
def profiles(case):
    rng = np.random.RandomState(case["seed"])
    now, tags = None, set()
    ops = [tuple(o) + (1, 0)[len(o) - 2:] for o in case["ops"]]
    last = [(False, None, k, 0) for k in sorted({o[2] for o in ops})]
    with scratch_dataset() as ds, network() as net, \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = type("Stub", (Tracebase,), {"DATASET_NAME": ds.name})
        for i, (update, fault, k, more) in enumerate(ops + last):
            loads = {"dev_%d.csv" % j: rng.randint(1, 2000, 61)
                     for j in range(rng.randint(0, 3), 3 + more)}
            loader, urls = attempt(
                net, trace_zip(loads), fault, lambda: cls(
                    update_raw_data=update,
                    step_size=dt.timedelta(seconds=k)))
            what = "step %d (update %s, fault %s, each %d seconds)" % (
                i, update, fault, k)
            if now is None or update:
                req(urls or now is not None, "%s: downloads nothing", what)
                req(urls or not update, "%s: updates nothing", what)
            if loader is None:
                tags.add("fault")
                now = now if now is None else "unsure"
                continue
            if urls:
                if now is not None:
                    tags.add("update")
                now = loads
            elif isinstance(now, str):
                continue
            got = loader.load_real_profiles_dict("full")
            req(set(got) == {"lamp"} and set(got["lamp"]) == set(now),
                "%s: profiles %s, expected %s", what, got, sorted(now))
            for name, load in now.items():
                # the last second of the recording may be left out
                g = np.asarray(got["lamp"][name])
                options = [averages(x, k) for x in (load, load[:-1])]
                req(any(g.shape == o.shape and np.allclose(g, o)
                        for o in options), "%s: %s is %s, expected %s",
                    what, name, g[:3], options[0][:3])
            if not urls and not update:
                tags.add("kept")
    return sorted(tags) if tags & {"fault", "update", "kept"} else []


# ------------------------------------------- files and parsed data as such
def shipped(*path):
    with open(os.path.join(DS, *path), "rb") as f:
        return f.read()


SG = {"n_residents": 2}


def tou_zip(seed):
    rng = np.random.RandomState(seed)
    tpm = rng.rand(2, 3, 3)
    b, z0 = io.BytesIO(), io.BytesIO()
    np.savez(z0, tpm=tpm, labels=np.array(["a", "b", "c"]),
             initial_pdf=np.array([0.25, 0.25, 0.5]))
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("n_residents_2.npz", z0.getvalue())
    return b.getvalue(), tpm


@sub("C32", "files", st.fixed_dictionaries({
    "kind": st.sampled_from(["crest", "germany", "destatis", "tou"]),
    "ops": st.lists(st.tuples(st.booleans(), FAULT, st.sampled_from([
        False, False, True])), min_size=1, max_size=5),
    "seed": st.integers(0, 10 ** 6)}), 90, 1500, budget=100,
     rule="a download fails, or the file is downloaded once and kept")
def files(case):
    kind, tags = case["kind"], set()
    have = {}
    with scratch_dataset() as ds, network() as net, \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = {"crest": Crest, "germany": GermanDataHerus,
                "destatis": Destatis, "tou": GTOU}[kind]
        cls = type("Stub", (base,), {"DATASET_NAME": ds.name})
        ops = [tuple(o) for o in case["ops"]]
        for i, (second, fault, clear) in enumerate(ops + [
                (second, None, False) for second in sorted(
                    {o[0] for o in ops})]):
            content = b"%d-%d " % (case["seed"], i) * 40
            if kind == "crest":
                name = "2.3.3" if second else "2.2"
                make = (lambda: cls(name))
                raw = "CREST_Demand_Model_v%s.xlsm" % name
            elif kind == "germany":
                name = "vBottaccioli" if second else "v0.1"
                make = (lambda: cls(version=name))
                raw = "data_%s.xlsx" % name
            elif kind == "destatis":
                name, raw = "", "appliances_penetration.ods"
                content = shipped("DESTATIS", "raw_data", raw)
                make = (lambda: cls().load_appliance_ownership_dict(SG))
            else:
                name, raw = ("Other" if second else "4_States"), None
                content, tpm = tou_zip(case["seed"] * 10 + i)
                kw = {"clear_parsed_data": True} if clear else {}
                if clear:
                    # the data of this activity type, and no other
                    have.pop(name, None)
                    tags.add("cleared")
                make = (lambda: cls(name, **kw))
            got, urls = attempt(net, content, fault, make)
            what = "step %d (%s %s, fault %s)" % (i, kind, name, fault)
            if name in have:
                req(not urls, "%s: downloads again %s", what, urls)
                tags.add("kept")
            else:
                req(len(urls) == 1, "%s: asks for %s", what, urls)
                if fault is None:
                    have[name] = (content, tpm if kind == "tou" else None)
                else:
                    tags.add("fault")
            if got is None:
                continue
            content = have[name][0]
            if raw is not None:
                with open(os.path.join(ds.path, "raw_data", raw),
                          "rb") as f:
                    req(f.read() == content,
                        "%s: the file is not what was downloaded", what)
            if kind == "tou":
                req_equal(got.load_tpm(SG)[0], have[name][1],
                          what + ": tpm")
            if kind == "destatis":
                want = dict(np.load(os.path.join(
                    DS, "DESTATIS", "parsed_data", "appliance_ownership",
                    "ownership__n_residents_2.npz")))
                req(set(got) == set(want), "%s: appliances", what)
                req_close([got[k] for k in want],
                          [want[k] for k in want], what)
        if kind == "crest":
            n = len(net.urls)
            try:
                cls("9.9")
            except ValueError:
                pass
            else:
                req(False, "an unknown version is accepted")
            req(len(net.urls) == n, "an unknown version is asked for")
    return sorted(tags)
