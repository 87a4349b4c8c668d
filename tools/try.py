"""Run snippets: python3-vt -m tools.try [variant] < file with snippets separated by lines '----'"""
import sys
from vf.server import Server
v = sys.argv[1] if len(sys.argv)>1 else "asan"
with Server(v) as s:
    for sn in sys.stdin.read().split("\n----\n"):
        r = s.run(sn, cpu=4)
        print(">>>", sn.strip()[:300]); print("   =", r.describe(), "| out:", r.out[:600], "| err:", (b"" if r.sanitizer else r.err[:400]))
