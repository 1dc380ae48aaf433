"""Validates the messages of a case file: one line per case."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
repo, fds, dump, res = sys.argv[1:5]
sys.path.insert(0, os.path.join(repo, "python"))
sys.path.insert(0, os.path.join(here, "stub"))
sys.setrecursionlimit(10000)

from google.protobuf import dyn  # noqa
from google.protobuf.message import DecodeError  # noqa
from protoc_gen_validate import validator  # noqa


def hexs(s):
    return "=" + str(s).encode("utf-8", "backslashreplace").hex()


def answer(m):
    before = str(m)
    try:
        r = validator.validate(m)
    except validator.ValidationFailed as e:
        out = "F" + hexs(e)
    except Exception as e:
        at = traceback.extract_tb(e.__traceback__)[-1]
        return "E" + hexs("%s: %s (%s, line %s)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno))
    else:
        out = "T=" if r is None else "E" + hexs("validate returns %r" % (r,))
    if str(m) != before:
        return "E" + hexs("validate changes the message")
    return out


with open(fds, "rb") as f:
    pool = dyn.Pool(f.read())
with open(dump) as f, open(res, "w") as o:
    for line in f:
        p = line.split("\t")
        if p[0] not in pool.messages:
            o.write("M\n")
            continue
        try:
            m = pool.new(p[0], bytes.fromhex(p[1]))
        except DecodeError as e:
            o.write("P%s\n" % e)
            continue
        o.write(answer(m) + "\t" + answer(m) + "\n")
        o.flush()
