#!/usr/bin/env python3
"""Lay out $VERIF_BUILD/acorn: the acorn crate of /repo's current working tree, as a
package that compiles offline here.

src/ is a copy, rewritten file by file only when the content differs (so that cargo always
notices a change, whatever the time stamps); other top-level entries are symlinks.
Regenerated:
  Cargo.toml   the one of /repo without [[bin]]/default-run/dev-dependencies
  build.rs     the one of /repo (it packs ./acornlib); acornlib/ is a two-file stand-in,
               because the submodule is empty here
  src/lib.rs   the one of /repo plus the single line that mounts the crate-internal
               probe module (/verif/harness/crate_hooks/verif_hooks.rs)
"""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(HERE, "..", "build", "acorn")
OUT = os.path.abspath(OUT)


def write(rel, text):
    path = os.path.join(OUT, rel)
    if os.path.islink(path):
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def mirror(rel, skip):
    src, dst = os.path.join(REPO, rel), os.path.join(OUT, rel)
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src)) - skip
    for name in os.listdir(dst):
        path = os.path.join(dst, name)
        if os.path.islink(path) and name not in names:
            os.unlink(path)
    for name in names:
        path, target = os.path.join(dst, name), os.path.join(src, name)
        if os.path.islink(path) and os.readlink(path) == target:
            continue
        if os.path.islink(path) or os.path.isfile(path):
            os.unlink(path)
        elif os.path.isdir(path):
            shutil.rmtree(path)
        os.symlink(target, path)


def copy_tree(rel, skip=(), leave=()):
    src, dst = os.path.join(REPO, rel), os.path.join(OUT, rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src)) - set(skip)
    for name in set(os.listdir(dst)) - names - set(skip):
        path = os.path.join(dst, name)
        if os.path.islink(path) or not os.path.isdir(path):
            os.unlink(path)
        else:
            shutil.rmtree(path)
    for name in names:
        a, b = os.path.join(src, name), os.path.join(dst, name)
        if os.path.join(rel, name) in leave and os.path.isfile(b):
            continue
        if os.path.isdir(a):
            copy_tree(os.path.join(rel, name), (), leave)
            continue
        if os.path.isdir(b) and not os.path.islink(b):
            shutil.rmtree(b)
        with open(a, "rb") as f:
            data = f.read()
        if os.path.isfile(b) and not os.path.islink(b):
            with open(b, "rb") as f:
                if f.read() == data:
                    continue
        if os.path.lexists(b):
            os.unlink(b)
        with open(b, "wb") as f:
            f.write(data)


def read(rel):
    with open(os.path.join(REPO, rel)) as f:
        return f.read()


def manifest(text):
    text = re.sub(r"^default-run = .*\n", "", text, flags=re.M)
    text = text.replace("[package]\n", "[package]\nautobins = false\nautotests = false\n"
                        "autobenches = false\nautoexamples = false\n", 1)
    text = re.sub(r"^\[\[bin\]\]\n(?:[^\[\n].*\n)*", "", text, flags=re.M)
    text = re.sub(r"^\[dev-dependencies\]\n(?:[^\[\n].*\n)*", "", text, flags=re.M)
    text = re.sub(r"^\[profile\.[^\]]*\]\n(?:[^\[\n].*\n)*", "", text, flags=re.M)
    return text


def lib(text):
    # the repository's own unit-test tree is not built here
    text = re.sub(r"^#\[cfg\(test\)\]\nmod tests;\n", "", text, flags=re.M)
    hooks = os.path.join(HERE, "crate_hooks", "verif_hooks.rs")
    pm = os.path.join(OUT, "src", "server", "project_manager.rs")
    return (text + '\n#[path = "%s"]\npub mod verif_hooks;\n' % hooks
            + '#[path = "%s"]\npub mod verif_project_manager;\n' % pm)


def main():
    os.makedirs(OUT, exist_ok=True)
    skip = {".git", "target", "src", "Cargo.toml", "Cargo.lock", "build.rs", "acornlib",
            "python", "docs", "vscode", "tests"}
    mirror("", skip)
    copy_tree("src", {"lib.rs", "tests", "bin"}, {"src/prover/scorer.rs"})
    write("Cargo.toml", manifest(read("Cargo.toml")))
    write("build.rs", read("build.rs"))
    write("src/lib.rs", lib(read("src/lib.rs")))
    # The learned scoring model needs a library that is not here: the default policy becomes
    # the handwritten one, so that entry points without a choice of policy (the server) run.
    scorer = read("src/prover/scorer.rs")
    write("src/prover/scorer.rs", re.sub(r"(impl Default for ScoringPolicy \{\s*fn default\(\) -> Self \{\s*)Self::\w+",
                                         r"\1Self::Handcrafted", scorer))
    write("acornlib/acorn.toml", "project_format_version = 0\n")
    write("acornlib/src/certs/manifest.json", '{"version": 0}\n')
    # The driver package shares acorn's lock file.
    lock = read("Cargo.lock")
    dlock = os.path.join(os.path.dirname(OUT), "acorn.lock")
    with open(dlock, "w") as f:
        f.write(lock)


if __name__ == "__main__":
    sys.exit(main())
