#!/usr/bin/env python3
"""Mirrors /repo's current working tree into /verif/build/<name>, in a form cargo can build offline.

The published manifest cannot be resolved here: josekit is a git dependency and ssi 0.14 is an
umbrella crate one of whose members cannot be fetched.  As /opt/vp/scope/mirror.py does for the test
suite, the mirror names the ssi-* component crates directly (that file's own rewriting is reused, so
that what is checked is what is tested).  Source files are otherwise byte-for-byte copies of /repo's.

  mirror.py lib   library without core::jwe (as the test suite builds it)     -> build/lib
  mirror.py jwe   library with core::jwe, josekit replaced by /verif/josekit  -> build/jwe

A file is only rewritten when its content changed, so incremental builds are exact."""
import os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KEEP = ("src/", "openid4vp-frontend/")


def load_rewriter():
    """The ssi path rewriting, copied from /opt/vp/scope/mirror.py (see tools/ssi_paths.py)."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    sys.dont_write_bytecode = True
    import ssi_paths
    return ssi_paths


def edit(rel, data, jwe, rw):
    if rel == "Cargo.toml":
        shim = b'josekit = { path = "' + os.path.join(VERIF, "josekit").encode() + b'" }'
        data = re.sub(rb"(?m)^josekit\s*=.*$", shim if jwe else b"", data)
        data = re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', rw.SSI_DEPS, data)
        # Only the library is built from the mirror.
        data = re.sub(rb"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", b"", data)
        data = re.sub(rb"(?ms)^\[\[(?:example|bench|test)\]\].*?(?=^\[|\Z)", b"", data)
        data = re.sub(rb"(?ms)^\[workspace\].*?(?=^\[|\Z)", b"", data)
        return data
    if rel == "src/core/mod.rs" and not jwe:
        data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
    if rel.endswith(".rs") and b"ssi::" in data:
        try:
            return rw.ssi_paths(data.decode()).encode()
        except UnicodeDecodeError:
            return data
    return data


def walk(root):
    for top, dirs, names in os.walk(root):
        rel = os.path.relpath(top, root)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = [d for d in dirs if d not in (".git", "target")]
        for n in names:
            yield rel + n


def wanted(jwe):
    for rel in walk(REPO):
        if rel == "Cargo.toml" or rel.startswith(KEEP):
            if rel.endswith("Cargo.lock") or (rel == "src/core/jwe.rs" and not jwe):
                continue
            yield rel


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    kind = sys.argv[1]
    jwe = kind == "jwe"
    dest = os.path.join(VERIF, "build", kind)
    rw = load_rewriter()
    want = set(wanted(jwe))
    if "Cargo.toml" not in want:
        sys.exit("no Cargo.toml in " + REPO)
    for rel in want:
        with open(os.path.join(REPO, rel), "rb") as f:
            put(os.path.join(dest, rel), edit(rel, f.read(), jwe, rw))
    for rel in set(walk(dest)) - want:
        os.remove(os.path.join(dest, rel))


main()
