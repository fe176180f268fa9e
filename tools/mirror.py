"""Copies /repo's library crates into a build folder that compiles offline.

Usage: mirror.py DEST [--jwe]

The same edits as /opt/vp/scope/mirror.py (ssi -> its component crates; josekit, a git
dependency that is not here, is dropped together with src/core/jwe.rs), plus one of ours: the
crate's own dependency on tokio is pointed at shim/tokio, which re-exports tokio and puts a
scheduling point in front of its async locks; and std, in that crate, is shim/std, which does
the same for std's locks and atomics. With --jwe, josekit is pointed at shim/josekit
and src/core/jwe.rs is kept. No file of /repo is changed, and a file of DEST is
rewritten only when its content differs, so that cargo rebuilds exactly what changed.
"""

import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
DEST = sys.argv[1]
JWE = "--jwe" in sys.argv[2:]
SKIP_DIRS = {".git", "target", "tests", "examples", "benches", ".github"}
OMIT = {"Cargo.lock"} | (set() if JWE else {"src/core/jwe.rs"})

SSI_DEPS = b"\n".join(
    [
        b'ssi-caips = { version = "0.3", default-features = false }',
        b'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        b'ssi-core = { version = "0.3.0", default-features = false }',
        b'ssi-crypto = { version = "0.2.1", default-features = false }',
        b'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        b'ssi-eip712 = { version = "0.1", default-features = false }',
        b'ssi-json-ld = { version = "0.3.1", default-features = false }',
        b'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        b'ssi-multicodec = { version = "0.2", default-features = false }',
        b'ssi-rdf = { version = "0.1", default-features = false }',
        b'ssi-security = { version = "0.1", default-features = false }',
        b'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
PRELUDE = {
    name: "ssi_claims::data_integrity::" + name
    for name in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update(
    (name, "ssi_claims::vc::" + name) for name in ("AnyJsonCredential", "AnyJsonPresentation")
)


def item(text):
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1) :]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end() :]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(
            r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2)
        )
        return m.group(1) + "{" + names + "}" + text[m.end() :]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos : m.start()])
        pos = m.end()
        if text[pos : pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1 : end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def edit_manifest(data):
    josekit = ""
    if JWE:
        josekit = 'josekit = { path = "%s/shim/josekit" }' % VERIF
    data = re.sub(rb"(?m)^josekit\s*=.*$", josekit.encode(), data)
    data = re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', SSI_DEPS, data)
    # tokio -> the shim; dev-dependencies are not built for a dependency, so they go.
    tokio = 'tokio = { package = "vp-tokio", path = "%s/shim/tokio" }' % VERIF
    parts = re.split(rb"(?m)^(?=\[)", data)
    out = []
    for part in parts:
        head = part.split(b"\n", 1)[0].strip()
        if head == b"[dev-dependencies]" or head.startswith((b"[[example", b"[[test", b"[[bench")):
            continue
        if head == b"[dependencies]":
            part = re.sub(rb"(?m)^tokio\s*=.*$", tokio.encode(), part)
            part = part.rstrip() + ('\nvp-std = { path = "%s/shim/std" }\n\n' % VERIF).encode()
        out.append(part)
    return b"".join(out)


def edit(rel, data):
    if rel == "Cargo.toml":
        return edit_manifest(data)
    if rel == "src/core/mod.rs" and not JWE:
        data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
    if rel == "src/lib.rs":
        data += b"\nextern crate vp_std as std;\n"
    if rel.endswith(".rs") and b"ssi::" in data:
        try:
            return ssi_paths(data.decode()).encode()
        except UnicodeDecodeError:
            return data
    return data


def files(root, all_of_it):
    for top, dirs, names in os.walk(root):
        rel = os.path.relpath(top, root)
        rel = "" if rel == "." else rel + "/"
        if not all_of_it:
            # tests/ and the like are only skipped at a crate's top level
            dirs[:] = [
                d
                for d in dirs
                if not (d in SKIP_DIRS and not rel.startswith(("src/", "openid4vp-frontend/src/")))
                and not d.startswith(".git")
            ]
        for n in names:
            if all_of_it or rel + n not in OMIT:
                yield rel + n


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    wanted = set(files(REPO, False))
    if "Cargo.toml" not in wanted:
        sys.exit(REPO + "/Cargo.toml is missing")
    for rel in wanted:
        with open(os.path.join(REPO, rel), "rb") as f:
            put(os.path.join(DEST, rel), edit(rel, f.read()))
    for rel in set(files(DEST, True)) - wanted:
        os.remove(os.path.join(DEST, rel))


main()
