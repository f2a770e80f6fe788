"""Stub executables that record their command lines."""

import os


def stub(bindir, name, log, body="exit 0"):
    """Write an executable that appends its arguments to the log."""
    path = os.path.join(bindir, name)
    with open(path, "w") as h:
        h.write("""#!/bin/sh
{ printf '%%s\\0' %s "$@"; printf '\\n\\0'; } >>'%s'
%s
""" % (name, log, body))
    os.chmod(path, 0o755)
    return path


def calls(log):
    """The command lines of the log."""
    if not os.path.exists(log):
        return []
    with open(log, encoding="utf-8") as h:
        text = h.read()
    out, cur = [], []
    for a in text.split("\0")[:-1]:
        if a == "\n":
            out.append(cur)
            cur = []
        else:
            cur.append(a)
    return out
