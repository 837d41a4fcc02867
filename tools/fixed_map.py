"""writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo (property of each subject below)"""
import subprocess
PROP = [("one-element integer", "P04"), ("iterators and contour segments keep", "P27"), ("already removed edge", "P01"), ("unsigned vertex and edge indices", "P27"),
        ("sources and targets", "P01"), ("vertex_induced_subgraph", "P01"), ("tree construction wrote", "P03"), ("pickling of a graph", "P24"), ("pickling a tree", "P24"),
        ("find_region", "P03"), ("LCA of graph edges", "P04"), ("auto_cache", "P23"), ("clear_attributes", "P23"), ("parent of a one-element", "P03"),
        ("leaves to root and root", "P03"), ("linearize_vertex_weights", "P02"), ("grid embedding", "P02"), ("khalimsky", "P02"), ("mean accumulator kept", "P05"),
        ("graph accumulators were", "P06"), ("left results uninitialized", "P05"), ("accumulators crashed", "P05"), ("row-major", "P29"), ("types without a specific", "P29"),
        ("hierarchy filters", "P08"), ("simplifying a tree", "P08"), ("2d and 3d images ignored", "P10"), ("multivariate tree of shapes", "P10"), ("mean padding", "P10"),
        ("images of other types", "P10"), ("tree of shapes read out", "P10"), ("different numbers of leaves", "P20"), ("tree fusion used", "P20")]
import sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = os.path.join(HERE, "tools", "fixed_extra.txt")
if os.path.exists(extra):
    for l in open(extra):
        if "\t" in l:
            PROP.append(tuple(l.rstrip("\n").split("\t")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [b for a, b in PROP if a in s]
    if not p:
        print("no property for:", s)
        p = ["?"]
    out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = os.path.join(HERE, "known_findings.txt")
head = []
if os.path.exists(f):
    head = [l.rstrip("\n") for l in open(f) if not l.startswith("fixed:")]
while head and not head[-1]:
    head.pop()
if not head:
    head = ["# known: property=P key=K family=F | text      (genuine defects recorded, not repaired)", "# fixed: property=P commit what failed         (repaired in /repo; suppresses nothing)"]
open(f, "w").write("\n".join(head + [""] + out) + "\n")
