"""Source of properties.jsonl and MANIFEST.json: python tools/props.py writes both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aligned_textgrid/"
SEQ, TIERS, LIST, ATG = S + "sequences/sequences.py", S + "sequences/tiers.py", S + "sequence_list.py", S + "aligned_textgrid.py"
MIX, TMIX, WITHIN = S + "mixins/mixins.py", S + "mixins/tiermixins.py", S + "mixins/within.py"
PTS, PTIERS, CUSTOM, DF = S + "points/points.py", S + "points/tiers.py", S + "custom_classes.py", S + "outputs/to_dataframe.py"
POLAR, PGRID = S + "polar/polar_classes.py", S + "polar/polar_grid.py"

P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Sequences and tiers are time-ordered and hold exactly what was put in",
     "After any creation, append, addition, removal or assignment, a sequence list, a tier, or an interval's list of children holds exactly the "
     "entries put in and not taken out, each once, in order of their start times (ties in any order). "
     "Indexing, iteration, length, labels and the arrays of start and end times all describe that same order. "
     "Appending an entry with the times and label of one already there adds nothing. Entries whose times were set by hand are in order again after the next append, addition or assignment.",
     ["inputs", "histories"], "every set of entry times and labels in any order, every history of edits",
     "The tests use a few hand-picked lists, almost all already sorted; ordering bugs need particular time patterns (start at 0, ties, insertion in the middle) after particular edits.",
     [LIST, TIERS, PTIERS, SEQ], [("sorted container", LIST + ":SequenceList"), ("tier sequence setter", TIERS + ":SequenceTier.sequence_list"), ("point tier", PTIERS + ":SequencePointTier")])
prop("C02", "Following and previous entries are exactly the neighbours",
     "Among the children of one interval, on a top-level tier, and on a point tier, each entry's following entry is the next one in time and its "
     "previous entry the one before, and the two agree with one another. "
     "The first has a boundary as previous and the last a boundary as following, and neighbours are of the same class. "
     "This holds after every edit: creating, appending, inserting, removing, moving, fusing, shifting, concatenating, relating, cleaning up, adding or removing a class.",
     ["inputs", "histories"], "every aligned hierarchy and every history of edits on it",
     "Precedence is stored per entry and re-established by every mutator separately; tests check it after construction and a few edits on fixed files.",
     [MIX, SEQ, TIERS, PTIERS], [("precedence setters", MIX + ":PrecedenceMixins"), ("subset precedence", SEQ + ":InstanceMixins._set_subset_precedence"), ("tier precedence", TIERS + ":SequenceTier")])
prop("C03", "Parents and children always agree",
     "An interval is in a parent's list of children if and only if it names that interval as its parent, it is there once, and it is in no other "
     "interval's list of children. "
     "In a group of tiers, children are on the tier below their parent and of the class below it; after relating, every upper interval has at least one child, and every lower interval that overlaps with an upper interval has a parent. "
     "This holds after every edit of the hierarchy: setting, appending, moving, removing and replacing children, fusing, appending and removing entries on tiers.",
     ["inputs", "histories"], "every hierarchy of intervals and every history of edits on it",
     "The relation is stored twice and updated in many places; tests look at single edits on fixed examples.",
     [SEQ, TIERS, LIST], [("parent/child setters", SEQ + ":InstanceMixins"), ("relating tiers", TIERS + ":TierGroup.__init__")])
prop("C04", "Intervals are related by largest overlap and aligned data is untouched",
     "When tiers are grouped, each lower interval becomes the child of the upper interval it overlaps with most, whatever order the tiers are given in, and never of one it does not overlap with. "
     "If the boundaries of the tiers match, grouping, regrouping and reading leave every time and label as it was, add nothing and give no warning.",
     ["inputs"], "every pair of tiers with non-overlapping intervals of positive duration on each tier, and every aligned hierarchy",
     "The overlap computation is vectorised; tests use a handful of files where boundaries match.",
     [TIERS, ATG], [("overlap matrix", TIERS + ":TierGroup.__init__"), ("tier order", TIERS + ":TierGroup._arrange_tiers")])
prop("C05", "Mismatched boundaries are reconciled without losing or inventing data",
     "When tiers whose boundaries do not match (by more than the closeness tolerance) are grouped, no interval and no label is lost, no interval ends up outside its parent, children exactly cover their parent, and anything added is blank. "
     "Times only move to a boundary given by the two tiers, intervals keep a positive duration and do not overlap on their tier. "
     "A warning is given exactly when some lower interval does not lie within an upper one.",
     ["inputs"], "every pair of tiers with independent boundaries on each tier, separated by more than the closeness tolerance; up to three levels",
     "Tests have a few files with a single off-by-a-bit boundary; whole classes of arrangements (overhang at either end, gaps, several children) are never built.",
     [TIERS, SEQ], [("mismatch handling", TIERS + ":TierGroup.__init__"), ("filling children", SEQ + ":SequenceInterval.cleanup")])
prop("C06", "Cleanup fills every gap with blanks and changes nothing else",
     "After cleanup of an interval, a tier, a group or a textgrid, the intervals on each tier follow one another without gap, children exactly cover their parents, all tiers of a group have the same extent, and all interval groups of a textgrid the same extent. "
     "Every interval that was there is still there with its label, and with its times unless its boundaries contradicted those of the tier above or below; everything added is blank and has a duration; points are untouched. Where an interval's children, or the intervals of a tier that is not in a group, overlap each other or stick out, cleanup still fills just the time that nothing covers. "
     "Cleaning up twice is the same as cleaning up once.",
     ["inputs", "histories"], "every interval, tier, group and textgrid with gaps anywhere; also after edits",
     "Tests clean two or three fixed textgrids; gap positions, levels and extents are a product space.",
     [SEQ, TIERS, ATG], [("interval cleanup", SEQ + ":SequenceInterval.cleanup"), ("tier cleanup", TIERS + ":SequenceTier.cleanup"), ("group cleanup", TIERS + ":TierGroup.cleanup"), ("textgrid cleanup", ATG + ":AlignedTextGrid.cleanup")])
prop("C07", "Fusing merges exactly two neighbours",
     "Fusing an interval with its following or previous neighbour leaves one interval from the earlier start to the later end, with the labels combined in time order by the given function and the children of both in order. "
     "The neighbour leaves the tier and its parent; every other interval keeps its times, label, parent, children and place. "
     "Fusing past an edge is refused and changes nothing.",
     ["inputs", "histories"], "every interval of every hierarchy (on a tier, in a parent, free), both directions, repeated fusions",
     "Tests fuse one or two fixed intervals; the bookkeeping differs between top tiers, lower tiers, lone parents and free intervals.",
     [SEQ, TIERS], [("fusion", SEQ + ":SequenceInterval.fuse_rightwards, fuse_leftwards"), ("removal", TIERS + ":SequenceTier.pop")])
prop("C08", "Shifting moves every time once by the increment",
     "Shifting a group or a textgrid adds the increment exactly once to every start, end and point time in it, on every tier. "
     "Labels, order, parents, children, neighbours and everything outside it stay as they were; shifting back restores the original times.",
     ["inputs", "histories"], "every group and textgrid of intervals and points, every increment",
     "Tests shift one fixed textgrid; intervals are reachable by several routes (tier, parent) and may be shifted twice or not at all.",
     [TIERS, PTIERS, ATG, SEQ, LIST], [("shift", TIERS + ":TierGroup.shift"), ("textgrid shift", ATG + ":AlignedTextGrid.shift")])
prop("C09", "Joining keeps everything, and concatenation shifts as a whole",
     "Concatenating lists, tiers or groups puts all entries of the second after those of the first, each shifted, together with its children, by the end of the first; the first part is unchanged. "
     "Adding does the same without shifting; nothing is lost, duplicated or relabelled, and hierarchy and order are those of the parts. "
     "Joining entries of unrelated classes is refused and changes nothing.",
     ["inputs", "histories"], "every pair of sequence lists, tiers, groups and point groups, joined once or repeatedly",
     "Tests join fixed pairs and check counts; looking alike, different extents and several levels are not reached.",
     [LIST, TMIX, TIERS, PTIERS], [("concatenation", TMIX + ":TierMixins.concat, TierGroupMixins.concat"), ("addition", LIST + ":SequenceList.__add__")])
prop("C10", "Looking up a time finds exactly the entries there",
     "Asking a tier for the interval at a time gives the one interval that starts at or before it and ends after it, and nothing if there is none; groups and textgrids answer for every tier, in order, and the indices they give retrieve those intervals. "
     "Asking for the nearest point gives a point no other point is nearer than.",
     ["inputs"], "every tier, group and textgrid and every time, boundaries included",
     "Tests query a few times in the middle of intervals of one file.",
     [TIERS, PTIERS, PTS, ATG], [("time lookup", TIERS + ":SequenceTier.get_interval_at_time"), ("nearest point", PTIERS + ":SequencePointTier.get_nearest_point_index"), ("interval at point", PTS + ":SequencePoint.get_interval_at_point")])
prop("C11", "Writing and reading back loses nothing",
     "Writing a clean textgrid to a file in any of the four formats, or to a praatio Textgrid, and reading it back with the same entry classes gives the same groups, tiers, classes, times, labels and hierarchy, and the same tier names if these are distinct. "
     "If there are gaps, the written and re-read textgrid has blank intervals in them and is otherwise the same. "
     "The names of the written tiers are unique whatever the names of the tiers; a tier whose name no other tier has keeps it. Writing changes nothing in memory. "
     "(Times are non-negative, labels carry no surrounding white space, boundaries differ by more than the closeness tolerance.)",
     ["inputs", "histories"], "every clean or gappy textgrid, every format, every naming of the tiers; also after edits",
     "Tests save one textgrid and check that the file exists or has the same number of tiers.",
     [ATG, TIERS, PTIERS, MIX], [("to praatio", ATG + ":AlignedTextGrid.return_textgrid"), ("saving", ATG + ":AlignedTextGrid.save_textgrid"), ("single tiers", TIERS + ":SequenceTier.return_tier, save_as_tg"), ("reading", ATG + ":AlignedTextGrid._process_textgrid_arg")])
prop("C12", "Data frames hold every entry, once and in order",
     "to_df with subsets gives one row per lowest interval below the object (an interval without children being its own lowest), in order, carrying in columns <Class>_id, _tier_index, _label, _start and _end the values of that interval and of every interval above it up to the object; a group gives the rows of its top tier and its name. "
     "Without subsets it gives one row per entry, in order, with its id, tier_index, label, start, end (intervals only) and entry_class. "
     "Point tiers and point groups always give one row per point. Nothing is lost, repeated, mixed between rows or filled in; a textgrid is the rows of its groups in order. Anything else is refused.",
     ["inputs", "histories"], "every interval, tier, group and textgrid, whatever its shape and depth; also after edits",
     "Tests check column names and row counts of one file.",
     [DF], [("to_df dispatch", DF + ":to_df"), ("intervals", DF + ":sequence_to_df"), ("tiers and groups", DF + ":tier_to_df")])
prop("C13", "Interleaving and popping classes change only the class in question",
     "Interleaving a new class above or below a class adds, in every group with that class, exactly one tier at that place, with one interval per interval of the timing tier, its times, and its label or a blank; each new interval is the child or the parent of the one it was made from and takes over its former parent or children. "
     "Popping a class removes exactly its tier from every group that has it and relates the tiers above and below directly; a group with no other tier is removed. "
     "All other intervals keep times, labels, parents and children, other groups are untouched, and groups keep their names and are found by them. "
     "Popping what was interleaved restores the textgrid. A call that cannot be carried out changes nothing. (Tiers are aligned, the new name is not in use.)",
     ["inputs", "histories"], "every aligned textgrid (several groups, levels, points groups, gaps between top intervals), every class and side, repeated",
     "Tests interleave and pop on one file and look at the number of tiers.",
     [ATG, CUSTOM, TIERS], [("interleave", ATG + ":AlignedTextGrid.interleave_class"), ("pop", ATG + ":AlignedTextGrid.pop_class"), ("names", ATG + ":AlignedTextGrid._set_group_names")])
prop("C14", "Classes are isolated",
     "Making a textgrid from groups, from a praatio Textgrid or from a file never changes the entry classes given: name, superset and subset class stay as they were, also for Word, Phone, SequenceInterval and SequencePoint. "
     "A textgrid has classes of its own, of the same names and hierarchy, which are subclasses of the given ones and are the same for all its groups. "
     "Whatever is then done to one textgrid (interleaving, popping, appending, editing, changing its classes), the given classes and every other textgrid made from the same classes keep their classes, entries, times, labels and hierarchy. Making or cloning classes changes no other class.",
     ["inputs", "histories"], "every pair of textgrids made from the same classes and every history of operations on one of them",
     "Tests check two attributes after one interleave on one file.",
     [ATG, CUSTOM, SEQ], [("cloning", CUSTOM + ":clone_class"), ("recloning", ATG + ":AlignedTextGrid._reclone_classes, _swap_classes"), ("class setters", SEQ + ":HierarchyMixins")])
prop("C15", "Every object has one address, and the address leads to it",
     "Groups are within their textgrid, tiers within their group, the entries of top-level and point tiers within their tier, and every other interval within its parent; the container's contents list it exactly there. "
     "within_index, within_path and id name that place: following the path from the outermost object by indexing leads to the object, and no two objects have the same id. "
     "An entry's tier and tier_index are where it is on its tier, and get_tierwise(k) is the entry k places on, or an IndexError beyond either end. "
     "Groups and tiers are found by their names if these are distinct; indexing with a list takes one member each. An entry taken out is on no tier and within nothing. "
     "All this holds after every edit.",
     ["inputs", "histories"], "every textgrid, group, tier and hierarchy outside tiers, and every history of edits",
     "Tests look up a few ids in one file right after reading it.",
     [WITHIN, MIX, TIERS, PTIERS, ATG], [("within", WITHIN + ":WithinMixins"), ("tier position", MIX + ":InTierMixins"), ("contents", TIERS + ":SequenceTier"), ("names", TMIX + ":TierGroupMixins._set_tier_names")])
prop("C16", "Distances between points are signed time differences",
     "On a point tier, a point's fol_distance is the time of the next point minus its own (never negative unless points were moved past one another), its prev_distance the time of the previous point minus its own (likewise never positive); the first has no previous and the last no following distance (None), and a point on no tier has neither. "
     "The distance to the next point and back cancel. distance_from another point is own time minus the other's; distance_from an interval is the pair of own time minus its start and own time minus its end. "
     "All this holds wherever the points are in time (zero and negative times and ties included), whatever order they were given in, and after appending, adding, concatenating, shifting, changing times or reading. (No two points of a tier agree in both time and label.)",
     ["inputs", "histories"], "every set of times on a point tier, in any order, and the edits listed",
     "Tests look at three points at positive times in order.",
     [PTS, PTIERS], [("distances", PTS + ":SequencePoint.fol_distance, prev_distance, distance_from"), ("order", PTIERS + ":SequencePointTier")])
prop("C17", "PoLaR annotations are related by time and read from their labels",
     "In a PolarGrid every Levels point's range_interval is the interval of the Ranges tier that starts at or before it and ends after it (None if there is none), and its turning_point is the TurningPoints point at its time (None if there is none); a turning point's level is the Levels point at its time, and the two name one another. "
     "Tiers are found by the name of their class, and groups are named Word_Phone, Points and RangesTier. Levels, Ranges or TurningPoints may be missing or empty. "
     "Labels say: 'N' or 'N?' is level N, certain or uncertain; 'LOW-HIGH' is a range of these numbers (NaN if there are none) with six evenly spaced break points from low to high; the band of level N is the Nth of its five bands; '*' is a prominence, ']' an edge; what follows the comma of a turning point is its override (None for '0'), the '?' not included. "
     "(Times of points on one tier differ, and a level and a turning point agree in time or differ, by more than the closeness tolerance.)",
     ["inputs"], "every PoLaR textgrid, whatever the times of its points and ranges, and every label of these forms",
     "Tests read one file and check types only.",
     [POLAR, PGRID], [("classes", POLAR + ":Levels, TurningPoints, Ranges, PrStr"), ("relating", PGRID + ":PolarGrid")])
prop("C18", "Validation says exactly whether the children fit, and what is wrong",
     "validate() of an interval is True if it has no children, or if the first child starts when it starts, the last ends when it ends, and each child ends when the next one starts; otherwise it is False. "
     "It gives a warning exactly when it is False, and the warning says exactly which of these hold: the first child starts after or before the interval, the last ends before or after it, the children do not fit snugly. "
     "It changes nothing. An interval that was cleaned up is valid. (Boundaries that are compared agree, or differ by more than the closeness tolerance.)",
     ["inputs", "histories"], "every interval with children at any times, however they were given; every interval of a textgrid after every edit",
     "Tests build three or four intervals that are off in one way each.",
     [SEQ], [("validation", SEQ + ":InstanceMixins.validate")])
prop("C19", "Extents, durations and shorthands agree with the entries",
     "xmin and xmax of a tier, a group or a textgrid are the earliest start (or time) and the latest end (or time) of any entry in it; empty tiers do not count, and if there is no entry they are None. "
     "duration is end minus start; sub_starts, sub_ends, sub_labels, phones, phone_list, starts, ends, times, labels, first, last, tier_names and entry_classes list what is there, in order; first and last of nothing is an IndexError. return_interval and return_point give the entry's times and label. "
     "Tiers, and classes by get_class_by_name, are found by name if the names are distinct. "
     "Assigning starts, ends or times to a tier gives each entry the one at its place and changes nothing else; a wrong number is refused and changes nothing. Changing a list or array handed out changes no entry. All this holds after every edit.",
     ["inputs", "histories"], "every tier, group and textgrid, empty ones, several groups and points included, and every edit",
     "Tests check extents of one textgrid whose tiers all begin and end together.",
     [TIERS, PTIERS, ATG, SEQ, TMIX], [("extents", TIERS + ":SequenceTier.xmin, TierGroup.xmin"), ("points", PTIERS + ":PointsGroup.xmin"), ("textgrid", ATG + ":AlignedTextGrid.xmin, get_class_by_name"), ("setters", TIERS + ":SequenceTier.starts")])
prop("C20", "A pickled textgrid comes back the same",
     "Pickling a textgrid, group, tier, list or entry with cloudpickle and loading it gives a copy with the same classes, names, entries, times, labels, parents, children, neighbours and ids, in which each thing is the copy of the original's and nothing is shared with the original. "
     "Editing one (shifting, fusing, moving, appending, removing, cleaning up, concatenating) leaves the other as it was and works on the copy as on the original. (Sizes pickle can handle; the copy is loaded in the same process, where classes are shared.)",
     ["inputs", "histories"], "every textgrid and part of one, fresh and after every edit",
     "The test pickles one textgrid and checks that something comes back.",
     [ATG, TIERS], [("state", ATG + ":AlignedTextGrid.__setstate__"), ("state of groups", TIERS + ":TierGroup.__setstate__")])
prop("C21", "What cannot be done is refused and changes nothing",
     "Appending, adding, concatenating or assigning entries, tiers or groups of the wrong class, level or kind to tiers, lists, intervals, groups or textgrids; giving an entry a parent, children or a neighbour of the wrong class, or itself as neighbour; fusing at an edge; giving the wrong number of times; popping an entry that is not there; "
     "interleaving a class with neither or both of above and below, a class that is not there, no name or an impossible timing; relating a class to itself or to something that is no class; cloning a hierarchy not from its top; making entries from tuples of the wrong size; making tiers or lists of entries of the wrong kind, and textgrids of anything but groups; indexing with a list of the wrong length; asking for a tier neighbour beyond the end: all raise an exception, "
     "and every entry, time, label, parent, child, neighbour, tier, group, class, within and contains is as it was before the call. "
     "Calls with nothing to do (appending what is there, removing what is not a child, popping an unknown class, shifting by 0, validate, repr, return_textgrid) change nothing. (Entries of different classes do not share times and label.)",
     ["inputs", "histories"], "every textgrid and history of edits, every one of these calls",
     "Tests check that some of these raise, not that nothing has changed.",
     [SEQ, TIERS, PTIERS, LIST, ATG, MIX], [("list checks", LIST + ":SequenceList"), ("interval checks", SEQ + ":InstanceMixins, HierarchyMixins"), ("tier checks", TIERS + ":SequenceTier, TierGroup"), ("interleave checks", ATG + ":AlignedTextGrid.interleave_class")])
prop("C22", "Reading assigns tiers to classes and groups as asked",
     "Reading a textgrid with nested entry classes gives a group per inner list, whose tiers are the next tiers of the textgrid with these classes, whatever their order, arranged from the top of the hierarchy down. A flat list of one hierarchy is used again for every speaker; a flat list of several hierarchies gives a group for each, in the order of their tops. "
     "No classes, or one, gives one group per tier; with fewer classes than tiers only the tiers they are for are read. Point classes get groups of their own, after the intervals if given together. Lists and tuples are alike. "
     "Tiers keep their names, and every entry its times and label; a group is named for what its tiers' names begin with. Groups given, or appended one by one, also after interleaving or popping and tier by tier, are kept whole, in order, with their names. A class given for several groups is one class; classes of one name in different hierarchies are kept apart. "
     "(Boundaries within a group match or are separated, there are no gaps, and tiers have the same extent.)",
     ["inputs"], "every textgrid and every way to give its entry classes",
     "Tests read three files with two or three kinds of entry classes.",
     [ATG, TIERS, PTIERS], [("reading", ATG + ":AlignedTextGrid._init_from_file, _nestify, _extend_classes"), ("classes", ATG + ":AlignedTextGrid._swap_classes"), ("arranging", TIERS + ":TierGroup._arrange_tiers")])
prop("C23", "Custom and cloned classes form the hierarchy asked for",
     "custom_classes makes new classes each time, with the names given, each above the next, the first below a top and the last above a bottom; classes named as points, by name or number, are point classes and no part of the hierarchy. They are returned in the order given, or in that of return_order, by name or number. "
     "get_class_hierarchy lists a hierarchy from its top down; clone_class makes a new hierarchy of the same names, and changing one leaves the other as it is. A class set above another by hand has that other below it, and the other way round; set to none there is none; no other class is changed. Entries of these classes relate only to those one level up or down. (Names are distinct.)",
     ["inputs"], "every list of names, choice of points and order",
     "Tests make two or three hierarchies.",
     [CUSTOM, MIX, SEQ], [("custom classes", CUSTOM + ":custom_classes"), ("clones", CUSTOM + ":clone_class, get_class_hierarchy"), ("relations", SEQ + ":HierarchyMixins")])

prop("C24", "Warnings are given exactly when there is cause",
     "Adding or concatenating lists or tiers of intervals warns that intervals overlap exactly when some do (sharing a boundary is no overlap). Making and editing whole, aligned data without namesakes warns of nothing. A textgrid warns if and only if it is empty, and of groups of one name, naming these and no others; a PointsGroup of tiers of one class likewise; all others are found by name. "
     "get_class_by_name gives the class of a name without a warning, all classes with one if there are several, and None with one if there is none. pop_class warns of each group it removes and of no other. The distance to a missing point, what a point cannot do (contain, be indexed, be added to, be appended to) and a missing parent (set_super_instance()) warn, give nothing and change nothing. "
     "The status of a PrStr is prominence (*) or edge (]); any other label is given as it is, with a warning. (Intervals have a positive duration.)",
     ["inputs"], "every combination of times and names, joined, looked up and edited",
     "Tests provoke single warnings; none asks that there be no others.",
     [LIST, TIERS, ATG, TMIX, PTS, POLAR], [("overlaps", LIST + ":SequenceList.__add__, concat; " + TIERS + ":SequenceTier.__add__, concat"), ("names", TMIX + ":TierGroupMixins"), ("class lookup", ATG + ":AlignedTextGrid.get_class_by_name, pop_class"), ("points", PTS + ":SequencePoint")])
prop("C25", "What is made from entries, tiers and praatio objects is what they say",
     "An interval or point made from a tuple, a list, a praatio entry, or another entry of any class, has the class asked for, the times and label given, and no parent, children, tier or neighbours; the entry it was made from stays as it is, also when the new one is changed. "
     "A tier made from praatio entries or a praatio tier has a new entry of its class for each, in order of time; one made from entries, a SequenceList or another tier holds those entries themselves, now of its class. The class is the one given, else that of the entries, else SequenceInterval or SequencePoint. A tier has the name of the praatio tier or the name the other tier was given, else that of its class. "
     "return_interval, return_point and return_tier give praatio entries and tiers with the same times, labels, order and name (or the name given), and change nothing. Tiers and groups made from nothing share nothing, and a list of entries, tiers or groups that something is made from stays as it is and may be changed later without changing what was made. (Start times differ; entries made into tiers have no children.)",
     ["inputs"], "every entry and every set of entries, names and classes",
     "Tests make single entries and tiers of two or three entries in order.",
     [SEQ, TIERS, PTS, PTIERS, MIX], [("entries", SEQ + ":SequenceInterval.__init__, return_interval; " + PTS + ":SequencePoint.__init__, return_point"), ("tiers", TIERS + ":SequenceTier.__init__, return_tier; " + PTIERS + ":SequencePointTier.__init__, return_tier"), ("casting", MIX + ":SequenceBaseClass._cast")])

NA = []
TECH = "symbolic execution of the real code + SMT (z3, QF_LRA), all paths within bounds; counterexamples replayed"

def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    import re
    for p in have:
        src = open(os.path.join(HERE, "harness", p["id"].lower() + ".py")).read()
        ns = {}
        m = re.search(r"^BOUNDS = (\(.*?\)|\".*?\")$\n", src, re.S | re.M)
        bounds = eval(m.group(1))
        checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python /verif/check.py {p['id']} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python /verif/check.py {p['id']} --tier thorough",
                           technique=TECH, level="model_checking",
                           level_note="Every path of the real code within the bounds is explored and every assertion decided by the solver for all "
                                      "times, labels and choices on it. Bounds: " + bounds + ". Trusted: the symbolic number/label classes, the numpy models, z3; "
                                      "path witnesses are re-run concretely."))
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup.py", checks=checks, not_applicable=NA,
                   notes="One symbolic executor (symx/), one harness module per property (harness/cNN.py). See DESIGN.md."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

if __name__ == "__main__":
    main()
