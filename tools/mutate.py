#!/usr/bin/env python3
"""Mutation sweep: which small changes to the library pass its tests, and which checks notice them.

usage: mutate.py OUT.jsonl [--workers N] [--files SUBSTRING,...] [--limit N] [--list]

Works on copies under /tmp (removed at the end); /repo and /verif are only read.
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, queue, random

FILES = {
    "src/free_tensor/tensor_basis/tensor_key.rs": ["C01", "C02", "C03", "C04", "C05"],
    "src/free_tensor/tensor_basis/key_iterator.rs": ["C04", "C05"],
    "src/free_tensor/tensor_basis/mod.rs": ["C02", "C03", "C04", "C14", "C01"],
    "src/vector/implementation/simple_dense_vector.rs": ["C06", "C07", "C13", "C28", "C05", "C11", "C14"],
    "src/vector/implementation/simple_sparse_vector.rs": ["C08", "C09", "C13", "C11"],
    "src/vector/implementation/deref_impl.rs": ["C12", "C10", "C13"],
    "src/vector/traits/vector.rs": ["C07", "C09", "C12"],
    "src/vector/traits/extension.rs": ["C11", "C07"],
    "src/vector/traits/dense_vector.rs": ["C06", "C07"],
    "src/vector/traits/degree_vector.rs": ["C14"],
    "src/vector/traits/iteration.rs": ["C08"],
    "src/vector/mod.rs": ["C08", "C06"],
    "src/free_tensor/implementation/dense.rs": ["C15", "C16", "C17", "C12", "C18"],
    "src/free_tensor/mod.rs": ["C19", "C20", "C21"],
    "src/free_tensor/conversions.rs": ["C12"],
    "src/algebra/mod.rs": ["C15", "C16", "C17"],
    "src/basis/mod.rs": ["C02"],
    "src/coefficients/floating_point_fields.rs": ["C23"],
    "src/coefficients/mod.rs": ["C23"],
    "src/lie/lie_basis/degree_range_map.rs": ["C24", "C25"],
    "src/lie/lie_basis/hall_key.rs": ["C26", "C27"],
    "src/lie/lie_basis/hall_set.rs": ["C27", "C26"],
    "src/lie/lie_basis/mod.rs": ["C27"],
}

SWAPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"(?<=\w)\+(?=\w)", ["-"]), (r"(?<=\w)-(?=\w)", ["+"]),
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" = "]), (r" /= ", [" *= "]), (r" \|= ", [" = "]), (r" <<= ", [" >>= "]), (r" >>= ", [" <<= "]),
    (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[\w(])", ["..="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\badd_inplace\b", ["sub_inplace"]), (r"\bsub_inplace\b", ["add_inplace"]), (r"\bmul_inplace\b", ["div_inplace", "add_inplace"]),
    (r"\buminus\b", ["clone"]), (r"\buminus_inplace\b", ["borrow_mut"]),
    (r"::add\(", ["::sub("]), (r"::sub\(", ["::add("]), (r"::mul\(", ["::add("]), (r"::div\(", ["::mul("]),
    (r"\.add\(", [".sub("]), (r"\.sub\(", [".add("]), (r"\.mul\(", [".add("]), (r"\.div\(", [".mul("]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"::ZERO\b", ["::ONE"]), (r"::ONE\b", ["::MONE", "::ZERO"]), (r"::MONE\b", ["::ONE"]),
    (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\.rev\(\)", [""]),
    (r"ldivide", ["lmultiply"]), (r"lmultiply", ["ldivide"]), (r"rdivide", ["rmultiply"]), (r"rmultiply", ["rdivide"]),
    (r"add_scalar", ["sub_scalar"]), (r"sub_scalar", ["add_scalar"]), (r"\badd_mul\b", ["sub_mul"]), (r"\bsub_mul\b", ["add_mul"]),
    (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"lhs_r\b", ["rhs_r"]), (r"rhs_r\b", ["lhs_r"]), (r"lhs_deg\b", ["rhs_deg"]), (r"rhs_deg\b", ["lhs_deg"]), (r"lhs_d\b", ["rhs_d"]), (r"rhs_d\b", ["lhs_d"]),
    (r"\.skip\((\d+)\)", [""]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".len() == 1"]),
    (r"\bu64\b", ["u32"]), (r"\bu32\b", ["u16"]), (r"\busize\b", ["u32"]), (r"checked_", ["wrapping_"]), (r"saturating_", ["wrapping_"]),
    (r"\breturn\b [^;]*;", [";"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\?;", [".ok();"]),
    (r"\bto_owned\b", ["new"]), (r"\bsort_by\b", ["sort_unstable_by"]),
]


def mutants(path):
    text = open(os.path.join("/repo", path)).read()
    cut = text.find("#[cfg(test)]")
    code = text if cut < 0 else text[:cut]
    lines = text.split("\n")
    n = code.count("\n")
    out, comment, hook, depth = [], False, False, 0
    for i, line in enumerate(lines[: n + (0 if cut >= 0 else 1)]):
        st = line.strip()
        if comment:
            comment = "*/" not in st
            continue
        if st.startswith("/*"):
            comment = "*/" not in st
            continue
        if "cfg(rustyalgebra_verif)" in st:
            hook, depth, seen = True, 0, False
            continue
        if hook:
            depth += line.count("{") - line.count("}")
            seen = seen or "{" in line or st.endswith(";")
            if seen and depth <= 0:
                hook = False
            continue
        if not st or st.startswith(("//", "use ", "pub use ", "mod ", "pub mod ", "#[", "impl", "where")):
            continue
        body = line.split("//")[0]
        new = set()
        for pat, reps in SWAPS:
            for m in re.finditer(pat, body):
                for r in reps:
                    new.add(body[: m.start()] + r + body[m.end():])
        for m in re.finditer(r"(?<![\w.<\"'])(\d+)(?![\w\"'])", body):
            v = int(m.group(1))
            for w in {v + 1, v - 1 if v else 1}:
                new.add(body[: m.start()] + str(w) + body[m.end():])
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)\s*$", body)
        if m:
            for c in ("!(%s)" % m.group(2), "true", "false"):
                new.add(m.group(1) + c + m.group(3))
        m = re.match(r"(\s*)while (?!let)(.*) \{\s*$", body)
        if m:
            new.add(m.group(1) + "while !(%s) {" % m.group(2))
        if st.endswith(";") and not st.startswith(("let ", "return", "type ", "const ", "fn ", "pub ", "}")):
            new.add(re.match(r"\s*", line).group(0) + ";" if st[0] not in "." else re.match(r"\s*", line).group(0) + ";")
        for t in sorted(new):
            if t.strip() != body.strip():
                out.append((path, i, line, t))
    return out


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        return p.returncode, p.stdout
    except Exception as e:  # noqa
        return 99, str(e)


class W(threading.Thread):
    def __init__(self, n, q, out, lock, stable):
        super().__init__()
        self.n, self.q, self.out, self.lock, self.stable = n, q, out, lock, stable
        self.dir = "/tmp/mutate%d" % n

    def setup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        subprocess.run(["git", "clone", "-q", "/repo", self.dir + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", "/verif", self.dir + "/verif"], check=True)
        p = self.dir + "/verif/check.sh"
        s = open(p).read().replace("REPO=/repo", "REPO=%s/repo" % self.dir)
        open(p, "w").write(s)

    def one(self, m):
        path, i, old, new = m
        full = os.path.join(self.dir, "repo", path)
        orig = open(os.path.join("/repo", path)).read()
        lines = orig.split("\n")
        lines[i] = new
        open(full, "w").write("\n".join(lines))
        try:
            env = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
            rc, o = sh(["cargo", "test", "--offline", "--no-run", "-q"], self.dir + "/repo", 200, env)
            if rc:
                return "no-build", None
            rc, o = sh(["cargo", "test", "--offline", "--lib", "--", "--test-threads", "2"], self.dir + "/repo", 60, env)
            ok = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M))
            if not self.stable <= ok:
                return "tests", None
            first = FILES[path]
            order = first + (["C22"] if re.search("dense|tensor_basis/mod", path) else [])
            said = []
            for c in order:
                rc, o = sh(["bash", "check.sh", c], self.dir + "/verif", 600, env)
                if rc == 1 and "VIOLATION property=" + c in o:
                    return "caught", c
                if rc != 0:
                    said.append("%s:%d" % (c, rc))
                    if rc == 2 and "does not build" in o:
                        return "harness-no-build", c
            return "SURVIVED", " ".join(said)
        finally:
            open(full, "w").write(orig)

    def run(self):
        self.setup()
        while True:
            try:
                m = self.q.get_nowait()
            except queue.Empty:
                break
            r, c = self.one(m)
            with self.lock:
                self.out.write(json.dumps({"file": m[0], "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(), "result": r, "check": c}) + "\n")
                self.out.flush()
        shutil.rmtree(self.dir, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--workers", type=int, default=4)
    a.add_argument("--files", default="")
    a.add_argument("--limit", type=int, default=0)
    a.add_argument("--list", action="store_true")
    a = a.parse_args()
    ms = []
    for f in FILES:
        if not a.files or any(x in f for x in a.files.split(",")):
            ms += mutants(f)
    random.Random(1).shuffle(ms)
    if a.limit:
        ms = ms[: a.limit]
    if a.list:
        for m in ms:
            print(m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip())
        print(len(ms))
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    stable = {s.replace("rustyalgebra::", "", 1) for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    q = queue.Queue()
    for m in ms:
        if (m[0], m[1] + 1, m[3].strip()) not in done:
            q.put(m)
    lock = threading.Lock()
    with open(a.out, "a") as out:
        ws = [W(i, q, out, lock, stable) for i in range(a.workers)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()


main()
