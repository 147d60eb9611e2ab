#!/usr/bin/env python3
"""report.py <property> <sanitizer> <exit code|unavailable> [dir]
Judges the reports of a sanitizer run, adds a summary to the evidence of the property.
Exit 1 (with a VIOLATION line) when a report concerns memory accesses made by the library."""
import glob, json, os, re, sys

root = os.path.dirname(os.path.abspath(__file__))
prop, name, rc = sys.argv[1:4]
dir_ = sys.argv[4] if len(sys.argv) > 4 else None
summary = {"exit": rc}
bad = []

STD = re.compile(r"(/rustc/|/rustlib/src/|library/(std|core|alloc)/)")


def owner(stack):
    """First frame outside of the standard library: 'lib', 'harness', 'other' or None."""
    for f in stack:
        if STD.search(f):
            continue
        if "/repo/src/" in f:
            return "lib"
        if "/harness/src/" in f:
            return "harness"
        if re.search(r"\.rs:\d+", f):
            return "other"
    return None


if rc == "unavailable":
    summary["note"] = "toolchain cannot build it here; nothing observed"
else:
    blocks = []
    if name in ("tsan", "asan"):
        text = "".join(open(p, errors="replace").read() for p in sorted(glob.glob(dir_ + "/report.*")))
        for b in re.split(r"(?m)^=+$", text):
            if "WARNING: ThreadSanitizer" in b or "ERROR: AddressSanitizer" in b:
                blocks.append(b)
        kept, seen = [], set()
        for b in blocks:
            # The two access stacks of a race, the access stack of an address error.
            stacks, cur = [], None
            for line in b.splitlines():
                if re.match(r"\s+#\d+ ", line):
                    if cur is not None:
                        cur.append(line.strip())
                else:
                    cur = []
                    stacks.append(cur)
            stacks = [s for s in stacks if s][: 2 if name == "tsan" else 1]
            if name == "tsan" and "data race" not in b and "use-after-free" not in b:
                continue
            owners = [owner(s) for s in stacks]
            if "lib" in owners or (name == "asan"):
                key = tuple(re.sub(r"0x[0-9a-f]+|:\d+", "", " ".join(s[:3])) for s in stacks)
                if key not in seen:
                    seen.add(key)
                    kept.append(b)
        summary["reports"] = len(blocks)
        summary["reports_in_library_code"] = len(kept)
        bad = kept
    log = open(dir_ + "/.run.log", errors="replace").read()
    if name == "miri":
        m = re.search(r"error: (Undefined Behavior|unsupported operation|deadlock|.*leak).*", log)
        if m and "Undefined Behavior" in m.group(0):
            at = log[m.start():]
            summary["report"] = m.group(0)
            if "/repo/src/" in at:
                bad = [at[:6000]]
        elif m:
            summary["note"] = m.group(0)
    v = re.findall(r"(?m)^VIOLATION property=\S+ replay=(\S+)", log)
    if rc == "1" and v:
        bad.append(log[-6000:])
    try:
        ev = json.load(open(dir_ + "/evidence.json"))
        summary["evaluations"] = ev["coverage"]["evaluations"]
        summary["observed_events"] = ev["coverage"]["observed_events"]
    except Exception as e:  # the run did not finish
        summary["note"] = summary.get("note", "") + f" no evidence: {e}"
        if rc not in ("0", "1"):
            summary["tail"] = log[-400:]

path = f"{root}/evidence/{prop}.json"
try:
    ev = json.load(open(path))
    ev["coverage"].setdefault("sanitizers", {})[name] = summary
    if bad:
        ev["violations"] = ev.get("violations", 0) + len(bad)
    json.dump(ev, open(path, "w"), indent=1)
except Exception as e:
    print("note: cannot update the evidence:", e)
print(f"{prop} {name}: {json.dumps({k: v for k, v in summary.items() if k != 'tail'})}")
if bad:
    os.makedirs(root + "/replay", exist_ok=True)
    rp = f"{root}/replay/{prop}-{name}.txt"
    open(rp, "w").write(f"property={prop}\nfound by {name}; replay: bash /verif/run.sh {prop} quick\n\n" + "\n\n".join(bad))
    print(bad[0][:3000])
    print(f"VIOLATION property={prop} replay={rp}")
    sys.exit(1)
