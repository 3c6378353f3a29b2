#!/usr/bin/env python3
# Reads YAML texts (length in bytes, newline, text) and answers each with one line of JSON: what a parser which is
# independent of yot (libyaml by way of PyYAML) makes of it.
import sys, json
import yaml
from yaml.events import *

class Limit(Exception):
    pass

def docs(text):
    out = []
    anchors, stack, size = {}, [], [0]
    def put(x):
        size[0] += 1 if isinstance(x, str) else 0
        if stack:
            stack[-1][1].append(x)
        else:
            out.append(x)
    for e in yaml.parse(text, Loader=yaml.CBaseLoader):
        if isinstance(e, DocumentStartEvent):
            anchors = {}
        elif isinstance(e, AliasEvent):
            if e.anchor not in anchors:
                raise ValueError("undefined alias " + e.anchor)
            put(anchors[e.anchor])
        elif isinstance(e, ScalarEvent):
            n = ["s", e.tag or "", e.value]
            if e.anchor:
                anchors[e.anchor] = n
            put(n)
        elif isinstance(e, (SequenceStartEvent, MappingStartEvent)):
            n = ["q" if isinstance(e, SequenceStartEvent) else "m", [], e.tag or ""]
            if e.anchor:
                anchors[e.anchor] = n
            put(n)
            stack.append(n)
        elif isinstance(e, (SequenceEndEvent, MappingEndEvent)):
            stack.pop()
    return out

def ser(n, active, b):
    if len(b) > 60000:
        raise Limit()
    if id(n) in active:
        b.append("<recursive>")
        return
    if n[0] == "s":
        b.append("s%s %s\n" % (n[1], json.dumps(n[2], ensure_ascii=True)))
        return
    active.add(id(n))
    b.append("%s%s %d\n" % (n[0], n[2], len(n[1])))
    for c in n[1]:
        ser(c, active, b)
    active.discard(id(n))

inp = sys.stdin.buffer
while True:
    l = inp.readline()
    if not l:
        break
    text = inp.read(int(l))
    try:
        d = docs(text.decode("utf-8"))
        r = []
        for n in d:
            b = []
            ser(n, set(), b)
            r.append("".join(b))
        a = {"docs": r}
    except Limit:
        a = {"limit": True}
    except RecursionError:
        a = {"limit": True}
    except Exception as e:
        a = {"error": ("%s: %s" % (type(e).__name__, e)).replace("\n", " ")}
    sys.stdout.write(json.dumps(a) + "\n")
    sys.stdout.flush()
