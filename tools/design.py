"""fills the generated parts of DESIGN.md: design.py QUICK_EVIDENCE THOROUGH_EVIDENCE SEEDTRY_LOG (each may be -: times stay as they are)"""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIM = os.path.join(HERE, "tools", "timings.json")

def main():
    tim = json.load(open(TIM)) if os.path.exists(TIM) else {"quick": {}, "thorough": {}, "seeds": {}}
    for tier, d in zip(("quick", "thorough"), sys.argv[1:3]):
        if d != "-":
            for f in glob.glob(d + "/C*.json"):
                e = json.load(open(f))
                tim[tier][e["property"]] = f'{len(e["coverage"]["harnesses"])} / {e["coverage"]["paths"]} / {e["wall_s"]:.0f} s'
    if len(sys.argv) > 3 and sys.argv[3] != "-":
        for l in open(sys.argv[3]):
            m = re.match(r"(s\d\d\w)\s+(C\d\d)\s+(\w+)", l)
            if m:
                tim["seeds"][m[1]] = m[3]
    json.dump(tim, open(TIM, "w"), indent=1, sort_keys=True)
    rows = ["| id | property | bounds | quick: instances / paths / time | thorough |", "|---|---|---|---|---|"]
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        src = open(os.path.join(HERE, "harness", p["id"].lower() + ".py")).read()
        b = re.search(r"BOUNDS = \((.*?)\)\nASSUMES|BOUNDS = (.*?)\nASSUMES", src, re.S)
        b = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', b[0]))
        rows.append(f'| {p["id"]} | {p["title"]} | {b} | {tim["quick"].get(p["id"], "")} | {tim["thorough"].get(p["id"], "")} |')
    seeds = ["| planted bug | property | needs | caught by its property's quick check |", "|---|---|---|---|"]
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        seeds.append(f'| {s} | {m["property"]} | {m["needs"]} – {m["what_it_breaks"]} | {tim["seeds"].get(s, "not tried")} |')
    p = os.path.join(HERE, "DESIGN.md")
    t = open(p).read()
    for k, r in (("table", rows), ("seeds", seeds)):
        t = re.sub(rf"(<!-- {k} -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(r) + "\n" + m[2], t, flags=re.S)
    open(p, "w").write(t)

if __name__ == "__main__":
    main()
