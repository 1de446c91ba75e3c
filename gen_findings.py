"""Writes known_findings.json from the fix: commits (run by hand)."""
import json, subprocess
FIX = [  # (subject prefix, properties, what failed)
 ("fix: binary operations follow", "C01 C05", "Add/Multiply/... of a dynamic array with a one-element array kept the wrong shape when the dynamic operand held one element"),
 ("fix: Concatenate records", "C02 C03", "Concatenate reported the new value as the old one, so a revert did not restore it"),
 ("fix: Permutation propagates", "C01", "Permutation of a constant that is not 2-dimensional was not updated when the order changed"),
 ("fix: Permutation refuses", "C18 C19", "Permutation accepted an order with values out of range and read out of bounds"),
 ("fix: BasicIndexing propagates", "C01 C02 C03", "strided, multi-dimensional and dynamic slices missed or misplaced updates"),
 ("fix: AdvancedIndexing places", "C01 C03", "indexing a dynamic array placed/removed elements out of order"),
 ("fix: AdvancedIndexing refuses slicing", "C18", "slicing a dynamic axis together with scalar indices was accepted and computed nonsense"),
 ("fix: the bounds of Square", "C04", "Square of a negative range declared too small a maximum / too large a minimum"),
 ("fix: the bounds of Max and Min", "C04", "Max/Min of possibly empty arrays ignored the initial value in their bounds"),
 ("fix: Prod of integers", "C04 C01", "Prod of integers became non-integral through value/old round-off"),
 ("fix: the size information", "C05", "sizeinfo of slices and indexing was wrong, arrays of different size were taken as equal"),
 ("fix: the distance between", "C07", "taking the difference of two strided iterators moved them"),
 ("fix: AdvancedIndexing supports arrays with empty rows", "C09 C19", "division by zero (SIGFPE) when indexing an array with empty rows"),
 ("fix: DisjointBitSets refuses", "C06 C11", "DisjointBitSets accepted sets that are not a partition"),
 ("fix: indexing refuses indices whose bounds", "C19", "indices with NaN bounds passed the range check and read out of bounds"),
 ("fix: the bounds of products", "C04", "0 * inf in bounds gave NaN and, downstream, bounds that exclude actual values"),
 ("fix: merging updates", "C07", "deduplicate_diff read before the first update when all updates cancel out"),
]
try:
    FIX += json.load(open("fixes_extra.json"))
except FileNotFoundError:
    pass
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
fixed, used = [], set()
for pre, props, what in FIX:
    h = [a for a, b in log if b.startswith(pre)]
    assert len(h) == 1, (pre, h)
    used.add(h[0])
    for p in props.split():
        fixed.append(f"fixed: property={p} {h[0]} {what}")
for a, b in log:
    assert a in used or not b.startswith("fix:"), b
known = []
try:
    known = json.load(open("known_findings.json"))["known"]
except FileNotFoundError:
    pass
json.dump({"known": known, "fixed": fixed}, open("known_findings.json", "w"), indent=1)
