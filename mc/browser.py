"""Driving the pages of the web application in the small browser of page.js."""
import json
import os
import re
import resource
import subprocess
from collections import Counter
from pathlib import Path

JS = Path(__file__).with_name("page.js")
BLANKS = re.compile("[\\s\ufeff]+")  # what a browser's \s matches, among what the inputs have


def norm(t):
    return BLANKS.sub(" ", t).strip()


class Browser:
    """one process with one page at a time."""

    _mine = {}

    @classmethod
    def get(cls):
        if os.getpid() not in cls._mine:
            cls._mine.clear()
            cls._mine[os.getpid()] = cls()
        return cls._mine[os.getpid()]

    def __init__(self):
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "NODE_OPTIONS")}
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        free = lambda: resource.setrlimit(resource.RLIMIT_AS, (hard, hard))  # its address space is large
        self.p = subprocess.Popen(["node", "--max-old-space-size=1500", str(JS)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, preexec_fn=free)

    def ask(self, **req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        assert line, "the browser ended"
        r = json.loads(line)
        assert "fault" not in r, f"the page cannot be run: {r.get('fault')}"
        self.shots = r["shots"]
        return r["shots"][-1] if r["shots"] else None

    def open(self, page, url, files, **kw):
        return self.ask(html=page, url=url, files=files, first=1, **kw)

    def act(self, *acts):
        return self.ask(acts=list(acts))

    def click(self, node):
        return self.act({"click": node["n"]})


# what is shown: nodes {"t": tag, "c": class, "n": number, "a": attributes, "h": HTML assigned, "k": nodes and texts}


def nodes(shot_or_nodes, sinks=False):
    for n in shot_or_nodes["body"] if isinstance(shot_or_nodes, dict) else shot_or_nodes:
        if not isinstance(n, str):
            yield n
            if sinks or "h" not in n:
                yield from nodes(n["k"], sinks)


def texts(n, sinks=False):
    """the texts below a node, those of assigned HTML aside."""
    out = []
    if "h" in n and not sinks:
        return out
    for c in n["k"]:
        if isinstance(c, str):
            out.append(norm(c))
        else:
            out += texts(c, sinks)
    return out


def largest(tops, is_mark):
    """for each text that is a mark: the largest node that has no other mark (and the mark)."""
    out = []

    def count(n):
        return sum(is_mark(t) for t in texts(n))

    def walk(n):
        k = count(n)
        if k == 1:
            out.append((next(t for t in texts(n) if is_mark(t)), n))
        elif k > 1:
            for c in n["k"]:
                if isinstance(c, str):
                    if is_mark(norm(c)):
                        out.append((norm(c), {"t": "", "c": "", "n": n["n"], "a": {}, "k": [c]}))
                else:
                    walk(c)

    for n in tops:
        if not isinstance(n, str):
            walk(n)
    return out


def covered(need, have):
    return not (Counter(need) - Counter(have))


def match(needs, haves, ok):
    """whether each need can be given one of the haves of its own."""
    taken = {}

    def give(i, seen):
        for j, h in enumerate(haves):
            if j not in seen and ok(needs[i], h):
                seen.add(j)
                if j not in taken or give(taken[j], seen):
                    taken[j] = i
                    return True
        return False

    return all(give(i, set()) for i in range(len(needs)))


def label(n):
    return " ".join(texts(n))
