"""writes the 'fixed' entries of known_findings.json from the fix: commits in /repo"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "groups made from nothing": "C25", "share the list it is made from": "C25",
 "fills only actual gaps": "C06",
 "classes with Top or Bottom in their names": "C23",
 "a tier concatenated within a group brings": "C09",
 "keeps its name when a tier is appended": "C15", "a class that was interleaved is known": "C22", "a tier that a group refuses keeps its class": "C21",
 "sorts entries whose times have changed": "C01",
 "append keeps time order when an entry starts at 0": "C01", "concat keeps a plain list": "C09", "PointsGroup.xmax": "C19",
 "point distances are defined": "C16", "get_interval_at_point returns None": "C10", "custom_classes returns classes": "C23",
 "tier edits keep precedence": "C02", "points added to a point tier": "C02", "a point tier made from a point tier": "C01",
 "fusing keeps the neighbour's precedence": "C07", "set_super_instance removes": "C03", "intervals appended to a subset list are within": "C03",
 "set_subset_list releases the intervals": "C03", "return_textgrid never renames": "C11", "appending a TierGroup to an AlignedTextGrid keeps": "C22",
 "TierGroup.concat accepts points": "C09", "set_subset_list releases replaced intervals that look alike": "C03",
 "tiers are within their TierGroup": "C15", "gap intervals added to a subset list": "C05", "relating tiers leaves intervals alone": "C04",
 "relating tiers leaves the lower tier": "C01", "AlignedTextGrid.cleanup pads": "C06", "intervals added by SequenceTier.cleanup": "C06",
 "AlignedTextGrid.cleanup relates": "C06", "precedence on a tier that becomes": "C02", "a tier that is no longer the top tier": "C15",
 "tier edits leave the precedence within subset lists": "C02", "tiers trimmed to the tier below": "C05",
 "point groups have tier names": "C19", "integer times can be shifted": "C08", "PolarGrids without levels": "C17", "mark of uncertainty": "C17",
 "classes of one name in different": "C22", "a refused concatenation": "C21",
 "a popped class is not reused": "C22", "nested in tuples": "C22", "flat entry classes may be": "C22",
 "get_class_hierarchy remembers nothing": "C23", "custom_classes of no names": "C23",
 "cleanup of a textgrid fills groups without": "C06", "interleaving a class gives it to groups": "C13",
 "a PointsGroup keeps its name": "C22", "cleaning up a tier relates": "C06", "the Interval keyword accepts": "C25", "TierGroup.cleanup fills tiers": "C06", "SequenceList.append with shift": "C09", "adding a second subset member": "C03", "save_as_tg of a tier": "C11", "to_df works for mixed": "C12", "an entry popped from a tier is no longer": "C12", "interleave_class with no tier": "C13", "to_df of an empty tier": "C12", "an empty point tier has no nearest": "C10", "empty tiers don't count for the extent": "C19", "textgrids with empty tiers can be saved": "C11", "concatenated onto a group without entries": "C09", "get_tierwise doesn't wrap": "C15", "iterated over in nested loops": "C01", "pop_class removes the last": "C13", "named accessors follow": "C13", "TierGroup.cleanup fills a tier whose outer": "C06",
}
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"known": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    ks = [k for k in PROP if k in s]
    assert len(ks) >= 1, s
    out.append(f"fixed: property={PROP[max(ks, key=len)]} {h} {s[5:]}")
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
print(len(out), "fixed")
