#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds the harnesses of one property from /repo's working tree, explores every suite of that property, writes
evidence/PROPERTY.json and exits 0 (held on everything explored) or 1 (VIOLATION line printed)."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CO_ECS_REPO", "/repo")
SEQ = ["-std=c++20", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
TARGETS = json.load(open(os.path.join(HERE, "targets.json")))


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
                except OSError:
                    pass
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(t, bdir, keyhash):
    """compile one target; results are cached by the content of everything that goes in"""
    out = os.path.join(bdir, t["name"])
    stamp = out + ".stamp"
    key = hashlib.sha256((keyhash + json.dumps(t, sort_keys=True)).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out, ""
    inc = ["-I" + os.path.join(REPO, "include"), "-DREPO=\"%s\"" % REPO]
    src = os.path.join(HERE, "harness", t["src"])
    defs = t.get("defs", [])
    tmp = out + ".%d.tmp" % os.getpid()
    if t["kind"] == "seq":
        r = run(["g++"] + SEQ + defs + inc + [src, "-o", tmp] + t.get("libs", []))
        if r.returncode:
            return None, r.stdout
    elif t["kind"] == "mc":
        sh = os.path.join(HERE, "lib", "build_mc.sh")
        r = run(["bash", sh, REPO, src, tmp] + defs)
        if r.returncode:
            return None, r.stdout
    elif t["kind"] == "script":
        r = run(["bash", os.path.join(HERE, "harness", t["script"]), REPO, src, tmp, bdir] + defs)
        if r.returncode:
            return None, r.stdout
    os.replace(tmp, out)
    open(stamp, "w").write(key)
    return out, r.stdout


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--suite") + 1] if "--suite" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    targets = [t for t in TARGETS if prop in t["properties"]]
    if not targets:
        print("unknown property", prop)
        return 2
    bdir = os.path.join(HERE, "build", "bin")
    odir = os.path.join(HERE, "build", "out", prop)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(odir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    keyhash = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "tests"), os.path.join(HERE, "lib"), os.path.join(HERE, "harness")])
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda t: build(t, bdir, keyhash), targets))
    tb = time.time() - t0
    for t, (out, msg) in zip(targets, built):
        if out is None:
            print("cannot build", t["name"])
            print(msg[-6000:])
            return 2
    suites, violated, broken, findings = [], [], 0, {}
    # known: property=<id> suite=<name> message=<regex> :: <what fails>
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) suite=(\S+) message=(.*) :: (.*)", line)
        if m and m.group(1) == prop:
            findings[m.group(2)] = (m.group(3), m.group(4))
    for t, (exe, _) in zip(targets, built):
        js = os.path.join(odir, t["name"] + ".json")
        if os.path.exists(js):
            os.remove(js)
        # suites are named after the property they decide
        cmd = [exe, "--property", prop, "--tier", tier, "--out", odir, "--json", js, "--suite", only or (prop + ".")]
        if findings:
            cmd += ["--known", ",".join(findings)]
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = bdir
        for attempt in range(2):
            r = run(cmd, env=env)
            sys.stdout.write(r.stdout)
            sys.stdout.flush()
            if r.returncode in (0, 1):
                break
        if r.returncode not in (0, 1) or not os.path.exists(js):
            print("harness", t["name"], "gave no answer: exit", r.returncode)
            broken += 1
            continue
        d = json.load(open(js))
        suites += d["suites"]
        for s in d["suites"]:
            known = findings.get(s["suite"])
            if s["violated"] and known and re.fullmatch(known[0], s["message"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, known[1]))
                s["known_finding"] = known[1]
            elif s["violated"]:
                violated.append(s)
    samples = [x for s in suites for x in s.pop("samples", [])][:8]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in suites),
            "transitions": sum(s["steps"] for s in suites),
            "traces_validated_against_impl": sum(s["executions"] for s in suites),
            "samples": samples,
            "exhaustive": bool(suites) and all(s["complete"] for s in suites),
            "suites": suites,
            "build_s": round(tb, 1),
        },
        "assumptions": next((t.get("assumptions", []) for t in targets if t.get("assumptions")), []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violated),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violated:
        for s in violated:
            print("VIOLATION property=%s replay=%s" % (prop, s["replay"]))
        return 1
    if broken or not suites:
        return 2
    print("property %s held on everything explored: %d executions, %d states, %.1f s" % (prop, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"], ev["wall_s"]))
    return 0


sys.exit(main())
