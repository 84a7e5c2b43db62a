import json,sys,glob
for f in sys.argv[1:] or sorted(glob.glob('/verif/evidence/*.json')):
    d=json.load(open(f)); print(f.split('/')[-1], d["wall_s"])
    for t in sorted(d["coverage"]["tasks"], key=lambda t:-t["wall_s"])[:8]:
        if t["wall_s"]>15: print("   ",t["task"],t["wall_s"],[(c["config"],c["open"]) for c in t.get("configs",[])])
