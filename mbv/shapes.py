"""the alphabet: adversarial bag trees, metadata blocks and names used throughout the explored spaces"""
from .model import bagspec

U1 = u"data/caf\u00e9 \u6570\u636e.txt"        # precomposed, CJK
U2 = u"data/cafe\u0301.txt"                    # decomposed

TREES = {
    "std": ({"data/a.txt": "alpha", "data/b/c.txt": "gamma gamma", "data/b/d/e.txt": [70, "e"],
             "metadata/pod.json": "{\"k\": 1}"}, ["data/empty"]),
    "one": ({"data/only": "x"}, []),
    "nopayload": ({"metadata/m.txt": "just tags"}, []),
    "nothing": ({}, []),
    "zeros": ({"data/z1": "", "data/z2": "", "data/d/z3": "", "data/n": "n"}, []),
    "spaces": ({"data/my file.txt": "one two", "data/dir one/x  y.txt": "xy", "data/dir one/z": "z",
                "my tags/tag file.txt": "tt"}, ["data/empty dir"]),
    "unicode": ({U1: u"\u00fcber", U2: "decomposed", u"data/\u65e5\u672c/\u8a9e": "nihongo",
                 u"m\u00e9ta/t\u00e4g.txt": "tag"}, []),
    "dots": ({"data/.hidden": "h", "data/_under": "u", "data/.d/x": "x", "data/..x": "dd", ".roottag": "r",
              "_meta/.t": "t", "data/...": "3"}, []),
    "special": ({"data/bagit.txt": "not the real one", "data/bag-info.txt": "nor: this", "data/fetch.txt": "f",
                 "data/sub/manifest-md5.txt": "m", "data/sub/tagmanifest-sha256.txt": "t",
                 "metadata/bag-info.txt": "mi", "metadata/fetch.txt": "mf", "data/plain": "p"}, []),
    "nearspecial": ({"bagit.txt.bak": "b", "my-bag-info.txt": "q", "manifest.txt": "m", "bag-info.txt~": "x",
                     "fetch.txt2": "f", "bagitXtxt": "X", "fetch-txt": "-", "manifest-md5.txt.old": "o",
                     "data/x": "x"}, []),
    "prefix": ({"data/a": "1", "data/ab": "22", "data/a.b/c": "333", "data/abc/a": "4444", "data.txt": "5",
                "data2/x": "66", "database": "777", "data/data/data": "8", "dat": "9"}, []),
    "nested": ({"data/1/2/3/4/5/6": "deep", "data/1/2/x": "x", "data/1/x": "xx", "data/x": "xxx",
                "meta/1/2/3/t": "t"}, ["data/1/2/3/none/none"]),
    "samename": ({"data/f": "same", "data/p/f": "same", "data/q/f": "same", "data/q/r/f": "same",
                  "t/f": "same"}, []),
    "many": ({"data/%s/f%02d" % ("xyz"[i % 3], i): [11 + i, str(i)] for i in range(13)}, []),
    "big": ({"data/exact64k": [65536, "k"], "data/big": [1048577, "B"], "data/small": "s",
             "data/sub/64k1": [65537, "q"]}, []),
    "emptydirs": ({"data/keep": "k", "meta/t": "t"}, ["data/e1", "data/e2/e3", "meta/e4", "tope"]),
    "punct": ({"data/a#b": "1", "data/100%": "2", "data/%41": "3", "data/it's": "4", "data/q\"q": "5",
               "data/a&b;c": "6", "data/[x]*?": "7", "data/a:b": "8", "data/back\\slash": "9", "data/{0}": "b",
               "data/,": "c", "data/a=b": "d", "data/-dash": "e", "data/#": "f"}, []),
    "case": ({"data/File": "F", "data/file": "f", "data/FILE/x": "X", "data/A/b": "1", "data/a/b": "2"}, []),
    "order": ({"data/z": [5, "z"], "data/a": [5, "a"], "data/m/z": [5, "mz"], "data/m/a": [5, "ma"],
               "data/0": [5, "0"], "zz": [5, "zz"], "00": [5, "00"]}, []),
    "binary": ({"data/bin": [300, "\x00\x01"], "data/crlf": "a\r\nb\r\n", "data/nl": "\n", "data/bom": u"\ufeffx"}, []),
    "tagonly": ({"tags/t1": "1", "tags/sub/t2": "2", "README": "r", "data/p": "p"}, []),
}

INFOS = {
    "std": [["Source-Organization", "Org"], ["External-Identifier", "ark:/88434/src"],
            ["Internal-Sender-Identifier", "src-1"], ["Internal-Sender-Description", "about the source"]],
    "min": [],
    "multi": [["Contact-Name", "Ann"], ["Contact-Name", "Bob"], ["Keyword", "k1"], ["Keyword", "k2"],
              ["Keyword", "k1"], ["External-Identifier", "id1"], ["External-Identifier", "id2"],
              ["Internal-Sender-Description", "first"], ["Internal-Sender-Description", "second"]],
    "fold": [["External-Description", "a long text\nthat goes on\nand on"], ["Note", "x: y: z"],
             ["Internal-Sender-Description", "folded\ndescription"]],
    "utf8": [["Source-Organization", u"Universit\u00e4t \u6771\u4eac"], [u"Pr\u00e9nom", u"Zo\u00eb"]],
    "sizes": [["Bagging-Date", "2020-01-01"], ["Bag-Size", "12.3 kB"], ["Bag-Group-Identifier", "grp"],
              ["Bag-Count", "1 of 1"], ["Contact-Email", "a@b.c"]],
    "odd": [["X-Empty", ""], ["X-Colon", "http://h/p?q=1:2"], ["X-Hash", "# not a comment"],
            ["Source-organization", "lower"], ["Source-Organization", "UPPER"]],
}

def source(tree="std", info="std", algs=("sha256",), ver="0.97", tagman=True, name="src", noinfo=False, upper=False):
    files, dirs = TREES[tree]
    return bagspec(name, files, dirs, INFOS[info], algs, ver, tagman, noinfo=noinfo, upper=upper)
