"""Writes MANIFEST.json from the check modules present."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REF = "reference-model monitor"
TECH = {
    "C01": "offline trace checker: every recorded segment compared with the extended-precision nearest hit",
    "C02": "offline trace checker over result rows with recorded sources (continuity, ids, units)",
    "C03": "offline trace checker of chain endings, plus a step monitor on intersect() calls for termination",
    "C04": "offline trace checker of the reflection law, and a monitor on reflect/material arrays",
    "C05": "offline trace checker of Snell's law and index bookkeeping, and a monitor on refract/Glass arrays",
    "C06": REF + " on intersect() under hostile rays and placements",
    "C07": REF + " on get_world_normals() incl. nested subtraction and inversion histories",
    "C08": REF + " on boolean combinations (midpoint classification oracle)",
    "C09": "history monitor: every box and hit compared with a freshly rebuilt twin and the model",
    "C10": "history monitor: shadow pose matrices checked after every operation",
    "C11": "state-snapshot monitor around pin with injected exceptions, nesting and re-entry",
    "C12": "stateful history monitor: used tracer against a fresh tracer after random API histories",
    "C13": "metamorphic monitor: permuted, split and single-ray executions",
    "C14": "metamorphic monitor: rigidly moved and scaled systems",
    "C15": REF + " on generate_rays()",
    "C16": "statistical monitor of lamp samples and history monitor of static lamps",
    "C17": REF + " on lens factories' hit lists and materials",
    "C18": REF + " on mirror, prism, baffle and aperture factories",
    "C19": "offline trace checker against first-order optics",
    "C20": "metamorphic monitor: reversed rays",
    "C21": REF + " on glass index formulas",
    "C22": REF + " on rendered pixels and drawn extents",
    "C23": "monitor on matplotlib artists produced by show()",
    "C24": REF + " on wavelength_to_rgb",
    "C25": "snapshot monitor around every call, and threaded stress with tiny switch interval",
    "C26": "offline trace checker of ids against recorded source output",
    "C27": "shadow-state monitor on RaySet field histories",
    "C28": REF + " on root helpers with conditioning-aware tolerance",
    "C29": "registry monitor of ids, listings and labels along edit histories",
    "C31": "shadow-state monitor on field histories, with reference values for figures and helpers",
    "C30": "spy-material monitor on every material call of a trace",
}
NOTE = ("Exploration by seeded, hostile workloads against an independent oracle; holds for what was observed. "
        "Tangent contacts, edge hits and hits closer than rounding are counted as ambiguous and not judged.")

checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "mon", "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"{PY} run.py {pid}", thorough_cmd=f"{PY} run.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level="exploration", level_note=NOTE))
    else:
        missing.append(dict(property=pid, reason="check not built yet"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd=f"{PY} -c 'import numpy, pandas, scipy, matplotlib'", checks=checks,
                   not_applicable=missing,
                   notes="No hooks in /repo: every monitor sits on the public API. Commits in /repo are 'fix:' only, see known_findings.txt."),
              f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(missing), "missing")
