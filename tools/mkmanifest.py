"""Write /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python run.py"
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded search over simulated process and thread schedules, compared with the serial run and each model alone",
    "C02": "seeded injection of exceptions, warnings, bad particles, failing reads and worker deaths under simulated schedules",
    "C03": "seeded histories checked event by event against a reference of the observation schedule",
    "C04": "seeded time zones, zone changes and clock jumps during calls, against an elapsed-time reference",
    "C05": "seeded adversarial random streams driving the resamplers, checked against counting bounds",
    "C06": "seeded search over simulated schedules and tile failures, compared with a sequential reference",
    "C07": "seeded search over simulated schedules of the matching pipeline, compared with a sequential reference",
    "C08": "seeded kills, write errors and concurrent builders at every disk operation, then resume and compare",
    "C09": "seeded disk faults, kills and power loss at every disk operation of each save",
    "C10": "seeded disk faults, kills and power loss at every disk operation of an Exif insertion",
    "C11": "seeded histories of reads, resizes, cache clears, file faults and threads against a fresh image",
    "C12": "seeded histories of reads, samples, file and allocation faults and threads against a fresh raster",
    "C13": "seeded exceptions and interrupts at chosen evaluations of trial parameters, checking camera state",
    "C14": "seeded adversarial random streams and fit failures against a reference of the consensus rules",
    "C15": "seeded operation histories with failures against a list-of-pairs reference model",
    "C16": "seeded operation histories with failures against a rebuilt raster",
    "C17": "seeded request histories with file and callback failures against a fresh interpolant",
    "C18": "seeded write failures (full disk, missing directory, size limit) with read-back",
    "C20": "seeded random and constant streams, histories, failing reads and interrupts against the law and a fresh model",
    "C21": "seeded tracking histories under simulated schedules and failures against an independent measurement model",
    "C22": "seeded call histories with failures and interrupts at chosen evaluations against a newly built model and an independent evaluation",
    "C23": "real matplotlib animations on simulated timers with seeded ticks, seeks, movies and vanishing photos, every drawn frame compared with the stored data",
    "C24": "seeded histories of camera operations with refused values, interrupts at any line and seeded random numbers against a parameter model and an independent camera",
    "C25": "seeded sequences of conversions, optimisations and file reads with interrupts at any line against independent camera models",
    "C26": "seeded histories of photos opened, overridden, rewritten, edited, lost and projected with read errors and interrupts against an independent reading of the metadata",
    "C19": "seeded histories of tracking runs with failures and interrupts against a fresh tracker",
}
NOTE = "Finds violations only in the executions searched (seeds, schedules and fault sequences counted in the evidence file); "
NOTES = {
    "default": NOTE + "trusts numpy, scipy, OpenCV, GDAL and the simulated pool, disk or random seam that replaces the real one.",
}
NA = {
    "N04": "pure function of a raster and an origin: nothing nondeterministic to simulate",
    "N05": "pure parsing of a given value: nothing nondeterministic to simulate",
    "N06": "pure functions of their arguments: nothing nondeterministic to simulate",
}
ids = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"{PY} check {i} --tier quick",
                "thorough_cmd": f"{PY} check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": T + TECH[i],
                "level": "exploration",
                "level_note": NOTES.get(i, NOTES["default"]),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
data = {
    "version": 1,
    "setup_cmd": f"{PY} setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam is installed by the simulator from outside (see DESIGN.md).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(data, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
