#!/usr/bin/env python3
"""Makes the crates the checks are built from, out of /repo's *current* working tree.

  .work/core   the part of the crate that does not need `manul` (same cuts as the sandbox's own build),
               plus src/tools/sss.rs, plus the harness (/verif/harness/core) mounted as a module of the crate
               so that it can use the crate's internal items.
  .work/full   the whole crate, with `manul` replaced by /verif/manul-shim, plus /verif/harness/full.

Files are copied (only when their content differs), never linked: cargo decides by modification time what
to rebuild, and a copy that is rewritten on change has a fresh one whatever the source's says.
/repo itself is only read."""

import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYN_REPO", "/repo")
WORK = os.environ.get("SYN_WORK", os.path.join(VERIF, ".work"))

DROP_LIB = ["entities", "protocols", "tests"]
DROP_TOOLS = ["protocol_shortcuts", "protocol_shortcuts_dev"]

ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"


def rd(path):
    with open(path, errors="surrogateescape") as f:
        return f.read()


class View:
    def __init__(self, name):
        self.root = os.path.join(WORK, name)
        self.written = set()

    def put(self, path, text):
        full = os.path.join(self.root, path)
        self.written.add(full)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if os.path.exists(full) and rd(full) == text:
            return
        with open(full, "w", errors="surrogateescape") as f:
            f.write(text)

    def tree(self, src, dst, skip=()):
        for d, dirs, files in os.walk(src):
            dirs.sort()
            rel = os.path.relpath(d, src)
            for f in sorted(files):
                r = os.path.normpath(os.path.join(rel, f))
                if not f.endswith((".rs", ".json", ".md")):
                    continue
                if r in skip or any(r.startswith(s + "/") for s in skip):
                    continue
                self.put(os.path.join(dst, r), rd(os.path.join(d, f)))

    def prune(self):
        for d, _, files in os.walk(os.path.join(self.root, "src")):
            for f in files:
                p = os.path.join(d, f)
                if p not in self.written:
                    os.remove(p)


def drop(text, names):
    for name in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(
            ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n", "", text, flags=re.M
        )
    return text


HARNESS_DEPS = """
proptest = { version = "1.12", default-features = false, features = ["std"] }
serde_json = { version = "1", features = ["arbitrary_precision"] }
bincode = "1.3.3"
hmac = "0.12.1"
sha2 = { version = "0.10.9", default-features = false }
"""

PROFILE = """
[workspace]

[profile.dev]
opt-level = 2
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 16

[profile.dev.package."*"]
opt-level = 3
debug = false
debug-assertions = false
overflow-checks = false
"""


def manifest(name):
    toml = rd(os.path.join(REPO, "Cargo.toml"))
    # nothing but the library: benches, examples and tests of the repository are not built here
    toml = re.sub(r"^\[\[(?:bench|example|bin|test)\]\]\n(?:(?!\[)[^\n]*\n?)*", "", toml, flags=re.M)
    toml = re.sub(r"^manul[ \t]*=.*\n", "", toml, flags=re.M)
    toml = re.sub(r'^default-run.*\n', "", toml, flags=re.M)
    for sect in ("profile", "workspace", "lints"):
        toml = re.sub(r"^\[%s[^\]]*\]\n(?:(?!\[)[^\n]*\n?)*" % sect, "", toml, flags=re.M)
    toml = re.sub(r"^edition = .*\n", lambda m: m.group(0) + "autobenches = false\nautoexamples = false\nautotests = false\nautobins = false\n", toml, flags=re.M)
    deps = HARNESS_DEPS
    deps = 'manul = { path = "%s/manul-shim" }\n' % VERIF + deps
    toml = re.sub(r"^\[dependencies\]\n", "[dependencies]\n" + deps, toml, count=1, flags=re.M)
    # dev-dependencies are not needed: the repository's own tests are not run from these views
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[)[^\n]*\n?)*", "", toml, flags=re.M)
    toml += '\n[[bin]]\nname = "%s"\npath = "src/bin_main.rs"\ntest = false\n' % name
    return toml + PROFILE


def lock(view, name):
    """Start from the repository's lock file (same versions), keep what cargo added later."""
    path = os.path.join(view.root, "Cargo.lock")
    base = os.path.join(VERIF, "gen", name + ".lock")
    if not os.path.exists(path):
        if os.path.exists(base):
            view.put("Cargo.lock", rd(base))
        else:
            text = rd(os.path.join(REPO, "Cargo.lock"))
            blocks = re.split(r"\n(?=\[\[package\]\]\n)", text)
            blocks = [b for b in blocks if 'name = "manul"' not in b]
            view.put("Cargo.lock", "\n".join(blocks).replace(' "manul",\n', ""))


TAIL = """
// ---- appended by /verif/gen/views.py ----
#[macro_use]
extern crate std;
#[path = "verif_harness/mod.rs"]
#[allow(missing_docs, unsafe_code, unused, clippy::all, unreachable_pub, missing_copy_implementations, trivial_casts, trivial_numeric_casts, unused_qualifications, rust_2018_idioms)]
pub mod verif;
"""

BIN = "fn main() { synedrion::verif::main() }\n"


def core():
    v = View("core")
    lib = drop(rd(REPO + "/src/lib.rs"), DROP_LIB)
    lib = re.sub(r"^#!\[deny\(unsafe_code\)\]\n", "", lib, flags=re.M)
    v.put("src/lib.rs", lib + TAIL)
    v.put("src/tools.rs", drop(rd(REPO + "/src/tools.rs"), DROP_TOOLS))
    skip = ["lib.rs", "tools.rs"]
    for m in DROP_LIB:
        skip += [m + ".rs", m]
    skip += ["tools/protocol_shortcuts.rs", "tools/protocol_shortcuts_dev.rs"]
    v.tree(REPO + "/src", "src", skip)
    v.tree(VERIF + "/harness/common", "src/verif_harness/common")
    v.tree(VERIF + "/harness/core", "src/verif_harness")
    if os.path.exists(REPO + "/README.md"):
        v.put("README.md", rd(REPO + "/README.md"))
    v.put("src/bin_main.rs", BIN)
    v.put("Cargo.toml", manifest("core"))
    lock(v, "core")
    v.prune()


def full():
    v = View("full")
    lib = rd(REPO + "/src/lib.rs")
    lib = re.sub(r"^#!\[deny\(unsafe_code\)\]\n", "", lib, flags=re.M)
    v.put("src/lib.rs", lib + TAIL)
    v.tree(REPO + "/src", "src", ["lib.rs"])
    v.tree(VERIF + "/harness/common", "src/verif_harness/common")
    v.tree(VERIF + "/harness/full", "src/verif_harness")
    if os.path.exists(REPO + "/README.md"):
        v.put("README.md", rd(REPO + "/README.md"))
    v.put("src/bin_main.rs", BIN)
    v.put("Cargo.toml", manifest("full"))
    lock(v, "full")
    v.prune()


if __name__ == "__main__":
    which = sys.argv[1:] or ["core", "full"]
    for w in which:
        {"core": core, "full": full}[w]()
