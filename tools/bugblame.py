"""List planted bugs whose patch removes no line of the original repository (such bugs do not count)."""
import glob, re, subprocess

BASE = "8976d45"
for path in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    orig = mine = 0
    file = None
    for line in open(path):
        if line.startswith("--- a/"):
            file = line[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", file], capture_output=True, text=True).stdout.split("\n")
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m[1]) - 1
        elif file and line.startswith("-") and not line.startswith("---"):
            if blame[n].startswith("^" + BASE):
                orig += 1
            else:
                mine += 1
            n += 1
        elif file and line.startswith(" "):
            n += 1
    print("ok " if orig else "BAD", path.split("/")[3], orig, mine)
