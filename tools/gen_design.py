#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, Bounds.java, known_findings.txt and seeded/."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
src = (root / "engine/src/sx/Bounds.java").read_text()
table = "".join(re.findall(r'"([^"]*)"', re.search(r"TABLE = (.*?);\n", src, re.S).group(1)))
crowd = "".join(re.findall(r'"([^"]*)"', re.search(r"CROWD = (.*?);\n", src, re.S).group(1)))
bounds = {}
pending = []
for m in re.finditer(r'case "(C\d\d)":|return (.*?);\n', src, re.S):
    if m.group(1):
        pending.append(m.group(1))
    else:
        t = m.group(2)
        text = (table if t.startswith("TABLE") else "") + "".join(re.findall(r'"([^"]*)"', t)) + (crowd if t.endswith("CROWD") else "")
        for p in pending:
            bounds[p] = text
        pending = []
HOW = {
 "C01": ("KeySetH, KeyValueCrowdH", "a pool of pairwise different symbolic keys with a present flag each; after every add, remove, removeAt and clear every key of the pool and one fresh key are looked up, size is compared; float keys include 0.0/-0.0"),
 "C02": ("KeySetH (entries=1), KeyValueCrowdH", "the model also keeps the entry of each key, the free entries in order of release and the next new entry"),
 "C03": ("KeyValueMapH, KeyValueCrowdH", "a symbolic value per key; get, getOrDefault, getValueAt, getValueAtOrDefault and KeyNotFoundException are compared in every reachable state"),
 "C04": ("KeyTraverseH, KeyValueTraverseH, KeyValueCrowdH", "from every reachable state each kind of traversal runs, with a callback that removes any subset; visits are counted per element"),
 "C05": ("KeyIterH, KeyValueCrowdH", "an iterator is part of the state: next, remove and outside changes happen in any order; visited/removed flags per key, and whether the next use has to throw"),
 "C06": ("KeyCopyH, KeyValueCopyH, KeyValueCrowdH", "two collections with a model each and copyFrom in either direction at any point of their histories; strategies are objects with symbolic hash codes"),
 "C07": ("KeyReserveH, KeyValueReserveH, BiH, KeyValueCrowdH, BiCrowdH", "the model of C02 with reserved entries"),
 "C08": ("KeyStratH", "hash strategies return a symbolic code per equality class (any function consistent with equality), equality strategies are a symbolic partition of the pool; null keys; setting strategies on full and empty collections"),
 "C09": ("KeyValueHeapH, KeyValueHeapStepH, KeyValueHeapCrowdH", "no live element precedes the head; one-step harness: any heap that insertion can build, then one operation, then all elements are drained in order"),
 "C10": ("KeyValueHeapH, KeyValueHeapCrowdH", "key and value per live entry; entries beyond; reuse before growth; after clear like new"),
 "C11": ("KeyValueHeapH, KeyValueHeapCrowdH", "the set of live entries; every entry of the storage and some outside are tested and removed"),
 "C12": ("KeyDequeH, KeyDequeCrowdH", "an array as ideal sequence; every operation in every reachable ring position"),
 "C13": ("KeyHydraH, KeyHydraCrowdH", "an ideal sequence per list; unknown and negative list ids; reuse of iterators"),
 "C14": ("KeyHydraH, KeyHydraCrowdH (about=14)", "entries: live ones distinct, freed ones reused last-in first-out, new ones in order; clear"),
 "C15": ("KeyVectorH, KeyVectorCrowdH", "an array as ideal sequence"),
 "C16": ("KeyArrayH", "lengths and positions compared before and after, for small arrays exhaustively, for huge ones at symbolic positions"),
 "C17": ("KeyStoreH", "a map from index to value; two fully symbolic indexes over the int range; getCapacity monotone"),
 "C18": ("KeyMatrixH", "a map from cell to value; symbolic rows; refusals leave the store unchanged"),
 "C19": ("KeyValueSortH", "companion values are the original positions: order, permutation and untouched outside follow from them; all three comparators"),
 "C20": ("BiH, BiCrowdH", "a boolean matrix of present pairs with their entries; every query of every key after every operation"),
 "C21": ("BiH, BiCrowdH (many=1)", "the same, seen from both sides"),
 "C22": ("KeyCodecH", "the bytes of the value computed independently"),
 "C23": ("PackH", "bit arithmetic"),
 "C24": ("KeyCompareH, BoolCompareH", "the natural order computed independently; antisymmetry and transitivity over three symbolic values"),
 "C25": ("KeyPredicateH, BoolPredicateH", "Java's operators and the comparators"),
 "C26": ("KeyConvertH, BoolConvertH", "Java's casts"),
 "C27": ("DateIntH", "decimal digits and a calendar computed independently"),
 "C28": ("SnowflakeH", "the previous id, the last used timestamp; the clock is an input at every reading and may fail"),
 "C29": ("SnowflakeNodeH, SnowflakeH (mode 1, 2)", "the clock reading and a counter"),
 "C30": ("SnowflakeThreadsH", "all ids handed out so far; every interleaving within the bound on preemptions"),
 "C31": ("CapacityH, KeyCapacityH", "arithmetic on longs; documented ranges"),
 "C33": ("BiH (about=33)", "the model of C20/C21; the callback, or the loop around an iterator, removes any of the pairs it is given"),
 "C32": ("KeyRetainH", "reachability of removed objects in the symbolic heap (on the real JVM: by reflection)"),
}
out = ["| id | property | harness | oracle | bounds (quick) |", "|---|---|---|---|---|"]
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    h = HOW.get(p["id"], ("", ""))
    out.append(f"| {p['id']} | {p['title']} | {h[0]} | {h[1]} | {bounds.get(p['id'], '')} |")
bt = "\n".join(out)
ft = "\n".join("- " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"**\1** `\2` ", l) for l in (root / "known_findings.txt").read_text().splitlines() if l.startswith("fixed"))
st = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted([*(root / "seeded").glob("*/meta.json"), *(root / "seeded-templates").glob("*/meta.json")]):
    m = json.loads(d.read_text())
    st.append(f"| {d.parent.name}{' (template)' if d.parent.parent.name != 'seeded' else ''} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '')} |")
f = root / "DESIGN.md"
s = f.read_text()
for name, text in (("BOUNDS", bt), ("FINDINGS", ft), ("SEEDS", "\n".join(st))):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    if a not in s:
        s = s.replace("\n" + name + "\n", f"\n{a}\n{b}\n")
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + "\n" + s[j:]
f.write_text(s)
