"""Builds values from terms and prints their addresses. Run with several hash seeds."""
import collections
import copy
import json
import pickle
import sys

from vf import env
from vf.simdict import SimDict

# name -> expressions that build it, in equal ways, all of the same type
LEAVES = {
    "None": ["None"], "True": ["True", "not False"], "False": ["False"],
    "0": ["0"], "1": ["1", "2 - 1"], "-1": ["-1"], "2": ["2"], "1.0": ["1.0", "2.0 / 2"], "0.5": ["0.5"],
    "10**30": ["10**30", "int('1' + '0' * 30)"], "1j": ["1j", "complex(0, 1)"],
    "''": ["''"], "'a'": ["'a'", "'abc'[:1]"], "'b'": ["'b'"], "'1'": ["'1'", "str(1)"],
    "'ab'": ["'ab'", "''.join(['a', 'b'])"], "'None'": ["'None'"], "uml": ["'\\xe4'", "chr(228)"],
    "b''": ["b''"], "b'a'": ["b'a'", "'a'.encode()"], "'x'*100": ["'x' * 100"],
    "range(3)": ["range(3)", "range(0, 3, 1)"], "nan": ["float('nan')"], "inf": ["float('inf')"],
    "int": ["int"], "Ellipsis": ["..."],
    "arr3": ["np.array([0, 1, 2])", "np.arange(3)", "np.arange(5)[:3]", "np.arange(5)[:3].copy()"],
    "arr3f": ["np.array([0., 1., 2.])", "np.arange(3).astype(float)"],
    "arr3i4": ["np.array([0, 1, 2], dtype='i4')"],
    "arr13": ["np.array([[0, 1, 2]])", "np.arange(3).reshape(1, 3)"],
    "arr31": ["np.array([[0], [1], [2]])"],
    "arr23": ["np.arange(6).reshape(2, 3)", "np.array([[0, 1, 2], [3, 4, 5]])"],
    "arr32": ["np.arange(6).reshape(3, 2)"], 
    "arrs": ["np.array(['a', 'b'])"], "arro": ["np.array(['a', 'b'], dtype=object)"],
    "np1.5": ["np.float64(1.5)", "np.float64(3) / 2"], "np1": ["np.int64(1)"],
    "df": ["pd.DataFrame({'a': [1, 2], 'b': [3, 4]})",
           "pd.DataFrame([[1, 3], [2, 4]], columns=['a', 'b'])"],
    "df2": ["pd.DataFrame({'a': [1, 2], 'b': [3, 5]})"],
    "df3": ["pd.DataFrame({'a': [1, 2], 'c': [3, 4]})"],
    "df4": ["pd.DataFrame({'a': [1, 2], 'b': [3, 4]}, index=[5, 6])"],
    "series": ["pd.Series([1, 2])"], "series2": ["pd.Series([1, 2], name='n')"],
    "date": ["datetime.date(2024, 1, 2)"], "dec": ["decimal.Decimal('1.50')"],
    "frac": ["fractions.Fraction(1, 2)", "fractions.Fraction(2, 4)"],
    "obj1": ["Obj(1)"], "obj2": ["Obj(2)"], "obj1b": ["Obj2(1)"],
    "bytearray": ["bytearray(b'a')"], "objuml": ["Größe(1)"], "objuml2": ["Größe(2)"], "objlong": ["Endless(1)"],
    "objod1": ["collections.OrderedDict(a=1, b=2)"], "objod2": ["collections.OrderedDict(b=2, a=1)"],
    "objod3": ["collections.OrderedDict(a=1, b=[2])"], "objod0": ["collections.OrderedDict()"],
    "objodd": ["ODict(a=1, b=2)"], "objdict": ["dict(c=1, b=2)", "dict(b=2, c=1)"],
    "objdd": ["collections.defaultdict(int, a=1, b=2)", "collections.defaultdict(int, b=2, a=1)"],
    "objdd2": ["collections.defaultdict(list, a=1, b=2)"], "objcnt": ["collections.Counter('aab')", "collections.Counter('baa')"],
    "objdq": ["collections.deque([1, 2])"], "objdq2": ["collections.deque([2, 1])"],
    # large ones, alike but for a little in the middle, at the end, or at the beginning
    "long1": ["'a' * 3000 + 'b' + 'a' * 3000"], "long2": ["'a' * 3000 + 'c' + 'a' * 3000"],
    "long3": ["'a' * 3001 + 'b' + 'a' * 2999"], "long4": ["'a' * 6000 + 'b'"], "long5": ["'b' + 'a' * 6000"],
    "longb1": ["b'a' * 3000 + b'b' + b'a' * 3000"], "longb2": ["b'a' * 3000 + b'c' + b'a' * 3000"],
    "longb3": ["b'a' * 6000 + b'b'"],
    "10**2000": ["10**2000", "int('1' + '0' * 2000)"], "10**2000+10**1000": ["10**2000 + 10**1000"],
    "longt1": ["tuple(range(2000))"], "longt2": ["tuple(range(999)) + (0,) + tuple(range(1000, 2000))"],
    "arrlong1": ["np.arange(30000)"], "arrlong2": ["np.where(np.arange(30000) == 15000, 0, np.arange(30000))"],
    "arrlong3": ["np.arange(30000) + (np.arange(30000) == 29999)"],
    "arrslong": ["np.array(['a' * 500, 'b'])"],
    "arrhuge1": ["np.arange(200000)"], "arrhuge2": ["np.arange(200000) + (np.arange(200000) == 199999)"],
    "longlist1": ["list(range(3000))"], "longlist2": ["list(range(2999)) + [0]"], "longlist3": ["list(range(3001))"],
    "longlist4": ["list(range(1499)) + [0] + list(range(1500, 3000))"],
    "longdict1": ["{f'k{i}': i for i in range(500)}", "{f'k{i}': i for i in reversed(range(500))}"],
    "longdict2": ["{f'k{i}': i + (i == 499) for i in range(500)}", "{f'k{i}': i + (i == 499) for i in reversed(range(500))}"],
    "longdict3": ["{f'k{i}': i + (i == 250) for i in range(500)}"], "longdict4": ["{f'k{i}': i + (i == 0) for i in range(500)}"],
    "longset1": ["set(range(800))", "set(reversed(range(800)))"], "longset2": ["set(range(799)) | {-1}"],
    "longset3": ["{f's{i}' for i in range(800)}", "{f's{i}' for i in reversed(range(800))}"],
    "longset4": ["{f's{i}' for i in range(1, 801)}"],
    "deeplist1": ["eval('[' * 60 + '1' + ']' * 60)"], "deeplist2": ["eval('[' * 60 + '2' + ']' * 60)"],
    "deeplist3": ["eval('[' * 61 + '1' + ']' * 61)"],
    "deept1": ["eval('(' * 60 + '1' + ',)' * 60)"], "deept2": ["eval('(' * 60 + '2' + ',)' * 60)"],
    "2**53": ["2 ** 53"], "2**53+1": ["2 ** 53 + 1"], "2.0**53": ["2.0 ** 53"], "0.3": ["0.3"], "0.1+0.2": ["0.1 + 0.2"],
    "delta": ["datetime.timedelta(days=1)", "datetime.timedelta(hours=24)"], "time": ["datetime.datetime(2024, 1, 2)"],
    "time2": ["datetime.datetime(2024, 1, 2, microsecond=1)"], "dec2": ["decimal.Decimal('1.51')"],
    "arrb": ["np.array([False, True])"], "arrnan": ["np.array([1.0, float('nan')])"], "arrdate": ["np.array(['2024-01-02'], dtype='M8[D]')"],
    "arrf4": ["np.array([0., 1., 2.], dtype='f4')"], "np1.5f4": ["np.float32(1.5)"],
    "seriesf": ["pd.Series([1.0, 2.0])"], "seriesi": ["pd.Series([1, 2], index=['a', 'b'])"], "dfcat": ["pd.DataFrame({'a': pd.Categorical(['x', 'y'])})"],
    "dfobj": ["pd.DataFrame({'a': ['x', 'y']})"], "dfcols": ["pd.DataFrame({'b': [3, 4], 'a': [1, 2]})"],
    "fzlong1": ["frozenset(range(300))", "frozenset(reversed(range(300)))"], "fzlong2": ["frozenset(range(1, 301))"],
    "dflong1": ["pd.DataFrame({'a': np.arange(5000)})"],
    "dflong2": ["pd.DataFrame({'a': np.where(np.arange(5000) == 2500, 0, np.arange(5000))})"],
}
UNHASHABLE = {n for n in LEAVES if n.startswith(("arr", "np", "df", "series", "obj", "bytearray",
                                                    "longlist", "longdict", "longset", "deeplist"))}
EQUAL = {"True": "1", "False": "0", "1.0": "1", "frac": "0.5", "2.0**53": "2**53"}
# equal values whose addresses are known to differ: name -> [(key, expression)]
LAYOUT = {
    "arr23": [("array-layout", "np.asfortranarray(np.arange(6).reshape(2, 3))")],
    "arr3": [("array-layout", "np.arange(5)[::2] // 2")][:0] + [
        ("array-layout", "np.array([0, 9, 1, 9, 2])[::2]")],
    "arr0": [(None, "np.array([])"), ("array-layout", "pickle.loads(pickle.dumps(np.array([])))")],
    "df": [("frame-layout", "(lambda d: (d.__setitem__('b', [3, 4]), d)[1])(pd.DataFrame({'a': [1, 2]}))")],
}


class Obj:
    def __init__(self, x):
        self.x = x
        self.y = ["y", {x}]


class Obj2(Obj):
    pass


class Größe(Obj):
    pass


class ODict(collections.OrderedDict):
    pass


Endless = type("Endless" + "s" * 300, (Obj,), dict(__module__=__name__))
globals()[Endless.__name__] = Endless


def namespace():
    import datetime
    import decimal
    import fractions
    import numpy as np
    import pandas as pd
    return dict(np=np, pd=pd, datetime=datetime, decimal=decimal, fractions=fractions, pickle=pickle,
                Obj=Obj, Obj2=Obj2, Größe=Größe, Endless=Endless, ODict=ODict, collections=collections)


class Builder:
    def __init__(self, how, ns):
        self.how, self.ns, self.n, self.shared = how, ns, 0, {}

    def leaf(self, name):
        xs = LEAVES[name]
        self.n += 1
        i = 0 if self.how == "plain" else (self.n + len(self.how)) % len(xs)
        return eval(xs[i], dict(self.ns))

    def build(self, t):
        if self.how == "alias" and "leaf" not in t:
            k = json.dumps(t, sort_keys=True)
            if k not in self.shared:
                self.shared[k] = self._build(t)
            return self.shared[k]
        return self._build(t)

    def order(self, xs):
        return list(reversed(xs)) if self.how in ("reversed", "pickled") else xs

    def _build(self, t):
        (k, x), = t.items()
        if k == "leaf":
            return self.leaf(x)
        if k == "list":
            return [self.build(y) for y in x]
        if k == "tuple":
            return tuple([self.build(y) for y in x])
        if k == "set":
            s = set()
            for y in self.order(x):
                s.add(self.build(y))
            return s
        if k == "frozenset":
            return frozenset([self.build(y) for y in self.order(x)])
        if k == "dict":
            d = {}
            for y in self.order(x):
                d[self.build(y["k"])] = self.build(y["v"])
            return d
        raise ValueError(k)

    def value(self, t):
        v = self.build(t)
        if self.how == "pickled":
            v = pickle.loads(pickle.dumps(v))
        if self.how == "copied":
            v = copy.deepcopy(v)
        return v


def differ(a, b):
    """Addresses are equal exactly if their texts are, whatever asks."""
    same = tuple(a) == tuple(b)
    if not ((a == b) is same and (b == a) is same and (a != b) is (not same)
            and (b in [a]) is same):
        raise AssertionError(f"{a} and {b}: " + ("not equal" if same else "equal"))


def main():
    pth = env.import_pythagoras()
    ns = namespace()
    job = json.load(sys.stdin)
    SimDict.reset()
    portals = [pth.DataPortal(SimDict("sim/" + p)) for p in "abc"]
    out, last = [], []
    with portals[job["portal"]]:
        for t, how in job["items"]:
            try:
                if how.startswith("layout"):
                    v = eval(LAYOUT[t["leaf"]][int(how[6:])][1], dict(ns))
                else:
                    v = Builder(how, ns).value(t)
                a = pth.ValueAddr(v)
                for b in last + [a]:
                    differ(a, b)
                out.append([a.prefix, a.hash_signature])
                last = last[-5:] + [a]
                if len(out) % 100 == 1:
                    last = last[-1:] + [a.__copy__(), pickle.loads(pickle.dumps(a))]
            except Exception as e:
                out.append(f"{type(e).__name__}: {e}"[:300])
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    sys.modules["checks.c05_worker"] = sys.modules["__main__"]
    Obj.__module__ = Obj2.__module__ = "checks.c05_worker"
    main()
