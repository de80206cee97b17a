"""Makes /verif/build/ws: links to /repo's entries, plus /repo/Cargo.toml without the optional
git dependency "oidn" (not available offline; the feature that uses it is never enabled) and a
committed Cargo.lock."""
import os, re, sys, shutil

def make(repo="/repo", ws=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ws = ws or os.path.join(here, "build", "ws")
    own = {"Cargo.toml", "Cargo.lock", "target"}
    os.makedirs(ws, exist_ok=True)
    entries = set(os.listdir(repo)) - own - {".git"}
    for name in os.listdir(ws):
        p = os.path.join(ws, name)
        if os.path.islink(p) and (name not in entries or os.readlink(p) != os.path.join(repo, name)):
            os.unlink(p)
    for name in entries:
        p = os.path.join(ws, name)
        if not os.path.islink(p):
            os.symlink(os.path.join(repo, name), p)
    text = open(os.path.join(repo, "Cargo.toml"), encoding="utf-8").read()
    text = re.sub(r"(?m)^oidn\s*=\s*\{[^}\n]*\bgit\b[^}\n]*\}[ \t]*\n?", "", text)
    text = re.sub(r'"dep:oidn"\s*,?\s*', "", text)
    def put(path, t):
        if not os.path.exists(path) or open(path, encoding="utf-8").read() != t:
            open(path, "w", encoding="utf-8").write(t)
    put(os.path.join(ws, "Cargo.toml"), text)
    put(os.path.join(ws, "Cargo.lock"), open(os.path.join(here, "mirror.Cargo.lock"), encoding="utf-8").read())
    return ws

if __name__ == "__main__":
    print(make(*(sys.argv[1:2] or [])))
