"""Helper for repair commits in /repo: exact replacements, test run, commit."""
import subprocess
R = "/repo/"
def sub(f, pairs):
    s = open(R + f).read()
    for a, b in pairs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)
def commit(msg):
    subprocess.check_call(["git", "-C", R, "commit", "-qam", msg])
    print(subprocess.check_output(["git", "-C", R, "log", "--oneline", "-1"], text=True).strip())
