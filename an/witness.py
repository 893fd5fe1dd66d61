"""Type-level witnesses: small client crates that must, or must not, type-check against the library as it is now."""
import concurrent.futures
import json
import os
import shutil
import subprocess

from . import dump as D


MODULE = "signature_witness"


class Lib:
    """the library's metadata, compiled from the current source, in a private directory"""

    def __init__(self):
        self.dir = os.path.join(D.CACHE, "wit-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        manifest = os.path.join(D.REPO, "Cargo.toml")
        target = os.path.join(D.CACHE, "target")
        with D.lock():
            e = D.env()
            e["CARGO_TARGET_DIR"] = target
            D._forget(target, "tclifford")
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json",
                                "--manifest-path", manifest], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=600)
            if r.returncode != 0:
                raise D.BuildError("cargo check failed:\n" + r.stderr[-3000:])
            self.meta, deps, self.names = None, set(), {}
            for ln in r.stdout.splitlines():
                m = json.loads(ln)
                if m.get("reason") != "compiler-artifact":
                    continue
                for f in m["filenames"]:
                    if f.endswith((".rmeta", ".so", ".rlib")):
                        if m["target"]["name"] == "tclifford":
                            self.meta = os.path.join(self.dir, os.path.basename(f))
                            shutil.copy(f, self.meta)
                        else:
                            deps.add(os.path.dirname(f))
                            self.names[m["target"]["name"].replace("-", "_")] = f
            if not self.meta:
                raise D.BuildError("no metadata of the library was produced")
            self.deps = sorted(deps)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cmd(self, src, name, extra=()):
        c = ["--crate-name", name, "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "--cap-lints", "allow",
             "--error-format=json", "--out-dir", self.dir, "--extern", "tclifford=" + self.meta]
        for d in self.deps:
            c += ["-L", "dependency=" + d]
        return c + list(extra) + [src]

    def write(self, name, text):
        p = os.path.join(self.dir, name + ".rs")
        with open(p, "w") as f:
            f.write(text)
        return p

    def check(self, name, text):
        """-> list of errors: (code, line of the witness the error is rooted at, message)"""
        p = self.write(name, text)
        e = D.env()
        r = subprocess.run(["rustc", "+nightly"] + self.cmd(p, name), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=300)
        errs = []
        for ln in r.stderr.splitlines():
            if not ln.startswith("{"):
                continue
            m = json.loads(ln)
            if m.get("level") != "error" or m.get("message", "").startswith("aborting due to"):
                continue
            errs.append(((m.get("code") or {}).get("code") or "", root_line(m, p), m["message"]))
        if r.returncode != 0 and not errs:
            raise D.BuildError("rustc failed without a diagnostic:\n" + r.stderr[-1500:])
        if r.returncode == 0 and errs:
            raise D.BuildError("rustc reported errors but succeeded")
        return errs

    def check_all(self, wits):
        """{name: text} -> {name: errors}"""
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            return dict(zip(wits, ex.map(lambda kv: self.check(*kv), wits.items())))

    def dump(self, module):
        """MIR dump of the library with one more module -> path"""
        src = os.path.join(self.dir, "src")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(D.REPO, "src"), src)
        with open(os.path.join(src, "lib.rs"), "a") as f:
            f.write("\n#[allow(dead_code, unused)]\npub mod %s {\n%s\n}\n" % (MODULE, module))
        out = os.path.join(self.dir, "dump.json")
        e = D.env()
        e["LD_LIBRARY_PATH"] = os.path.join(D.sysroot(), "lib")
        e["CLMIR_CRATE"] = "tclifford"
        e["CLMIR_OUT"] = out
        c = [D.BIN, os.path.join(D.sysroot(), "bin", "rustc"), "--crate-name", "tclifford", "--crate-type", "lib",
             "--edition", "2021", "--emit=metadata", "--cap-lints", "allow", "--out-dir", os.path.join(self.dir, "src")]
        for n, f in sorted(self.names.items()):
            c += ["--extern", "%s=%s" % (n, f)]
        for d in self.deps:
            c += ["-L", "dependency=" + d]
        r = subprocess.run(c + [os.path.join(src, "lib.rs")], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=600)
        if r.returncode != 0 or not os.path.exists(out):
            raise D.BuildError("the library with the witness module does not compile:\n" + r.stdout[-2000:])
        return out


def root_line(m, path):
    """line of the witness file at the root of the primary span's macro expansion"""
    best = None
    for sp in m.get("spans", []):
        if not sp.get("is_primary"):
            continue
        s = sp
        while s:
            if s["file_name"] == path:
                best = s["line_start"]
            e = s.get("expansion")
            s = e["span"] if e else None
        if best:
            return best
    return best
