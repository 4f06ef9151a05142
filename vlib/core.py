"""Shared machinery: building diman, compiling generated programs, verdicts, evidence.

Everything here drives the real code only through its public surface: the
`unit_system!` macro and the items it generates.  Nothing looks at how /repo is
written, only at what programs that use it compile to and compute.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DIMAN_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
TARGET = os.path.join(WORK, "target")
ANCHOR = os.path.join(VERIF, "anchor")
TOOLCHAIN = "nightly-2024-10-20-x86_64-unknown-linux-gnu"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    RUSTUP_TOOLCHAIN=TOOLCHAIN,
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="0",
    CARGO_TARGET_DIR=TARGET,
    RUSTC_WRAPPER="",
    RUSTC_ICE="0",
    RUST_BACKTRACE="0",
    OMPI_ALLOW_RUN_AS_ROOT="1",
    OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    LC_ALL="C.UTF-8",
)
for _k in ("RUSTFLAGS", "TRYBUILD", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(_k, None)

# Named feature sets (features of the anchor crate).
CONFIGS = {
    "core": "f32,f64,std",
    "f64": "f64,std",
    "si": "f32,f64,std,si,serde",
    "vec": "f32,f64,std,vec2,dvec2,vec3,dvec3",
    "serde": "f32,f64,std,vec2,dvec2,vec3,dvec3,serde",
    "rand": "f32,f64,std,rand",
    "full": "f32,f64,std,vec2,dvec2,vec3,dvec3,serde,rand,mpi,hdf5",
    "rational": "f32,f64,std,rational,serde,vec2,dvec2,vec3,dvec3",
}


class EngineError(Exception):
    """Something that is neither a pass nor a violation."""


def _source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(
            d
            for d in dirs
            if not (rel == "." and d in ("target", ".git", ".github", "tests"))
            and d not in ("target",)
        )
        for n in sorted(names):
            if n.endswith((".rs", ".toml")):
                files.append(os.path.join(root, n))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_locked = None


def _lock():
    global _locked
    os.makedirs(WORK, exist_ok=True)
    if _locked is None:
        _locked = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(_locked, fcntl.LOCK_EX)


_fresh = set()


def _ensure_fresh(target, env):
    """Forget artefacts of diman itself when /repo's sources differ from those they were
    built from (file times in copies of the tree cannot be trusted)."""
    if target in _fresh:
        return
    _lock()
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.stamp")
    want = _source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want:
        r = subprocess.run(
            ["cargo", "clean", "--offline", "-p", "diman", "-p", "diman_lib", "-p", "diman_unit_system", "-p", "anchor"],
            cwd=ANCHOR, env=env, capture_output=True, text=True, timeout=600,
        )
        if r.returncode != 0:
            raise EngineError("cargo clean failed: " + r.stderr[-2000:])
        with open(stamp, "w") as f:
            f.write(want)
    _fresh.add(target)


class Artefacts:
    def __init__(self, externs, search, edition="2021"):
        self.externs = externs
        self.search = search

    def args(self, only=None):
        a = []
        for n, p in sorted(self.externs.items()):
            if only is None or n in only:
                a += ["--extern", f"{n}={p}"]
        for s in sorted(self.search):
            a += ["-L", s]
        return a


_built = {}
USER_CRATES = {
    "diman", "glam", "serde", "serde_json", "serde_yaml", "rand", "rand_core", "mpi", "hdf5", "once_cell",
}


def try_build(features, fast=False):
    """Build the anchor with a feature list; returns (Artefacts or None, log).  With `fast`
    the procedural macro is optimised (for checks that expand thousands of systems)."""
    if (features, fast) in _built:
        return _built[features, fast]
    env = ENV
    if fast:
        env = dict(ENV, CARGO_TARGET_DIR=TARGET + "-fast", CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL="2")
    _ensure_fresh(env["CARGO_TARGET_DIR"], env)
    res = _built[features, fast] = build_in(features, env)
    return res


def build_in(features, env):
    """cargo build with the given environment"""
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--no-default-features", "--features", features]
    r = subprocess.run(cmd, cwd=ANCHOR, env=env, capture_output=True, text=True, timeout=1500)
    externs, search, log = {}, set(), []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            name = m["target"]["name"].replace("-", "_")
            if name in ("hdf5_metno",):
                name = "hdf5"
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    search.add("dependency=" + os.path.dirname(f))
                    if name in USER_CRATES:
                        externs[name] = f
        elif m.get("reason") == "build-script-executed":
            for p in m.get("linked_paths", []):
                search.add(p)
        elif m.get("reason") == "compiler-message":
            if m["message"].get("level") == "error":
                log.append(m["message"].get("rendered", ""))
    if r.returncode != 0:
        res = (None, "".join(log)[-4000:] + r.stderr[-2000:])
    else:
        res = (Artefacts(externs, search), "")
    return res


def build(config, fast=False):
    feats = CONFIGS.get(config, config)
    art, log = try_build(feats, fast)
    if art is None:
        raise EngineError(f"diman does not build with features {feats}:\n{log}")
    return art


_rustc = None


def rustc_path():
    global _rustc
    if _rustc is None:
        r = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise EngineError("no rustc: " + r.stderr)
        _rustc = os.path.join(r.stdout.strip(), "bin", "rustc")
    return _rustc


HEADER = "#![allow(warnings, incomplete_features, unused)]\n#![feature(generic_const_exprs, adt_const_params)]\n"


class Diag:
    def __init__(self, msg):
        self.message = msg.get("message", "")
        self.code = (msg.get("code") or {}).get("code") if msg.get("code") else None
        self.rendered = msg.get("rendered", "")
        self.lines = set()

        def walk(span):
            self.lines.update(range(span["line_start"], span["line_end"] + 1) if span["line_end"] - span["line_start"] < 3 else [span["line_start"]])
            e = span.get("expansion")
            if e and e.get("span"):
                walk(e["span"])

        for s in msg.get("spans", []):
            walk(s) if s.get("is_primary") else None


class Compiled:
    def __init__(self, ok, diags, stderr, rc):
        self.ok, self.diags, self.stderr, self.rc = ok, diags, stderr, rc

    def text(self, n=3000):
        return "".join(d.rendered for d in self.diags)[:n] or self.stderr[-n:]


def rustc(src, out, art, extra=(), timeout=600, env=None, emit_meta=False, edition="2021"):
    cmd = [rustc_path(), "--edition", edition, "--error-format=json", "-C", "debuginfo=0", src]
    if emit_meta:
        cmd += ["--emit=metadata", "-o", out]
    else:
        cmd += ["-o", out]
    cmd += art.args() + list(extra)
    try:
        r = subprocess.run(cmd, env=env or ENV, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise EngineError(f"rustc timed out on {src}")
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and not m.get("message", "").startswith("aborting due to"):
                diags.append(Diag(m))
    if r.returncode < 0 or (r.returncode != 0 and not diags) or "internal compiler error" in r.stderr:
        if "internal compiler error" in r.stderr or r.returncode in (101,):
            # an ICE is reported as a rejection by the caller only if it says so
            return Compiled(False, diags, "ICE: " + r.stderr, r.returncode)
        if r.returncode < 0:
            raise EngineError(f"rustc died with {r.returncode} on {src}: {r.stderr[-500:]}")
    return Compiled(r.returncode == 0, diags, r.stderr, r.returncode)


def pmap(fn, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=min(jobs or JOBS, len(items))) as ex:
        return list(ex.map(fn, items))


def run_bin(path, args=(), timeout=300, env=None, stdin=None):
    try:
        r = subprocess.run([path, *args], env=env or ENV, capture_output=True, text=True, timeout=timeout, input=stdin, errors="replace")
    except subprocess.TimeoutExpired:
        raise EngineError(f"{path} timed out")
    return r


class Run:
    """One run of one check."""

    current = None
    finished = False

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        Run.current = self
        self.dir = os.path.join(WORK, "gen", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(WORK, "replay", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.outcomes = {}
        self.kf = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def outcome(self, k, n=1):
        self.outcomes[k] = self.outcomes.get(k, 0) + n

    def violation(self, key, what, detail=None, files=None):
        """key identifies the failing input / call site / history."""
        for k, text in self.kf:
            if k == key:
                self.known.append((key, text))
                return
        n = len(self.viol)
        path = os.path.join(self.replays, f"{n:04d}.json")
        if n < 400:
            d = dict(property=self.pid, key=key, what=what, detail=detail)
            d["files"] = {}
            for f in files or []:
                try:
                    dst = os.path.join(self.replays, f"{n:04d}-" + os.path.basename(f))
                    shutil.copy(f, dst)
                    d["files"][os.path.basename(f)] = dst
                except OSError:
                    pass
            with open(path, "w") as f:
                json.dump(d, f, indent=1, default=str)
        self.viol.append((key, what, path))

    def finish(self):
        self.finished = True
        states = len(self.states) + self.n_states
        cov = dict(
            states=states,
            transitions=self.transitions,
            traces_validated_against_impl=self.validated,
            samples=self.samples[:20],
            outcomes=self.outcomes,
            exhaustive=True,
            **self.extra,
        )
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.viol),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.transitions or (not self.validated and not self.viol):
            raise EngineError("vacuous run: nothing was explored")
        seen = set()
        for key, text in self.known:
            if key not in seen:
                seen.add(key)
                print(f"KNOWN-FINDING: property={self.pid} {text}")
        for key, what, path in self.viol[:10]:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {key}: {what}"[:1500])
        if len(self.viol) > 10:
            print(f"  ... and {len(self.viol) - 10} more violations")
        print(
            f"{self.pid} [{self.tier}]: {len(self.viol)} violations, {states} states, {self.transitions} transitions, "
            f"{self.validated} replayed on the implementation, {time.time() - self.t0:.1f}s"
        )
        # keep the working directory small
        if not self.viol:
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.viol else 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


# ---------------------------------------------------------------------------
# Programs whose result is observed by running them


def run_program(run, name, src, art, extra=(), timeout=600, args=(), env=None, header=True, soft=False):
    """Compile and run one generated program; returns stdout lines.

    A generated program that does not compile or crashes is itself an observation: with
    soft=True the pair (kind, text) is returned instead of raising."""
    path = run.write(name + ".rs", (HEADER if header else "") + src)
    out = run.path(name + ".bin")
    c = rustc(path, out, art, extra, timeout)
    if not c.ok:
        if soft:
            return ("compile", c)
        raise EngineError(f"{path} does not compile:\n{c.text()}")
    r = run_bin(out, args=args, timeout=timeout, env=env)
    try:
        os.unlink(out)
    except OSError:
        pass
    if soft:
        return ("ran", r)
    if r.returncode != 0:
        raise EngineError(f"{path} failed with {r.returncode}: {r.stderr[-2000:]}")
    return r.stdout.splitlines()


# ---------------------------------------------------------------------------
# Accept / reject decisions


class Case:
    """A fragment of a program (items, no main) that must be accepted or rejected.

    `code` must be self contained given the prelude and occupy its own lines.
    """

    __slots__ = ("key", "code", "expect", "info", "got", "why")

    def __init__(self, key, code, expect, info=None):
        self.key, self.code, self.expect, self.info = key, code, expect, info
        self.got = None
        self.why = ""


def _assemble(prelude, cases):
    text = HEADER + prelude + "\n"
    line = text.count("\n") + 1
    where = []
    parts = [text]
    for c in cases:
        code = c.code if c.code.endswith("\n") else c.code + "\n"
        n = code.count("\n")
        where.append((line, line + n - 1))
        line += n
        parts.append(code)
    parts.append("fn main() {}\n")
    return "".join(parts), where


def decide(run, name, prelude, cases, art, batch=200, solo=False, codegen=True):
    """Set case.got (True accepted / False rejected) for every case: a case is accepted iff
    the prelude together with that case alone compiles.  Batches are only a short cut:
    a batch that compiles accepts all its members; an error located in the lines of a case
    rejects that case; everything else is compiled alone."""

    def compile_cases(tag, cs):
        text, where = _assemble(prelude, cs)
        p = run.write(f"{name}-{tag}.rs", text)
        # dead private functions are still type checked; constants in signatures are
        # evaluated by the type checker.
        c = rustc(p, run.path(f"{name}-{tag}.out"), art, emit_meta=not codegen)
        try:
            os.unlink(run.path(f"{name}-{tag}.out"))
        except OSError:
            pass
        return c, where, p

    good = [c for c in cases if c.expect]
    bad = [c for c in cases if not c.expect]
    todo = []
    jobs = []
    if not solo:
        for kind, lst in (("a", good), ("r", bad)):
            for i in range(0, len(lst), batch):
                jobs.append((f"{kind}{i // batch}", lst[i : i + batch]))
    else:
        todo = list(cases)

    def work(job):
        tag, cs = job
        rest = []
        c, where, p = compile_cases(tag, cs)
        if c.ok:
            for x in cs:
                x.got = True
            return rest
        hit = {}
        for d in c.diags:
            for i, (lo, hi) in enumerate(where):
                if any(lo <= ln <= hi for ln in d.lines):
                    hit.setdefault(i, d)
        for i, x in enumerate(cs):
            if i in hit:
                x.got = False
                x.why = hit[i].message
            else:
                rest.append(x)
        return rest

    for rest in pmap(work, jobs):
        todo.extend(rest)

    # the rest: first together again in small batches (errors of later compiler phases only
    # show once the earlier ones are gone), then alone
    def alone(ix):
        i, x = ix
        c, _, _ = compile_cases(f"s{i}", [x])
        x.got = c.ok
        if not c.ok:
            x.why = c.diags[0].message if c.diags else c.stderr[-300:]
        return x

    # expected-accepted leftovers: try as one batch before going one by one
    rem_good = [x for x in todo if x.expect and x.got is None]
    if rem_good and not solo:
        groups = [rem_good[i : i + batch] for i in range(0, len(rem_good), batch)]
        nxt = []
        for rest in pmap(work, [(f"g{i}", g) for i, g in enumerate(groups)]):
            nxt.extend(rest)
        todo = nxt + [x for x in todo if not x.expect]
    pmap(alone, list(enumerate(todo)))
    return len(todo)


def check_decisions(run, name, cases, describe=None):
    for c in cases:
        run.transitions += 1
        run.validated += 1
        run.outcome(("accepted" if c.got else "rejected"))
        if c.got != c.expect:
            exp = "compile" if c.expect else "be rejected"
            run.violation(
                c.key,
                f"program must {exp} but was {'accepted' if c.got else 'rejected: ' + c.why}",
                dict(code=c.code, info=c.info, why=c.why),
            )


def main(module):
    """Entry point used by check.py."""
    try:
        rc = module.main()
    except Exception as e:
        if not isinstance(e, EngineError):
            import traceback
            traceback.print_exc()
        print(f"ENGINE ERROR: {e}", file=sys.stderr)
        # what was found before is still a violation
        run = Run.current
        if run is not None and run.viol and not run.finished:
            return run.finish()
        return 3
    return rc


# ---------------------------------------------------------------------------
# Observation programs: many independent statements, each printing what it observes

OBS_PRELUDE = r'''
extern crate std;
#[allow(unused)]
fn __rec(id: usize, s: ::std::string::String) {
    use ::std::io::Write;
    let mut o = ::std::io::stdout().lock();
    ::std::writeln!(o, "{}\t{}", id, s.replace('\n', "\\n")).unwrap();
}
#[allow(unused)]
fn __guard(id: usize, f: fn() -> ::std::string::String) {
    match ::std::panic::catch_unwind(f) {
        Ok(s) => __rec(id, s),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<::std::string::String>().cloned()).unwrap_or_default();
            __rec(id, ::std::format!("PANIC {}", m))
        }
    }
}
'''


class Obs:
    """`expr` is a Rust expression (or block body) of type String."""

    __slots__ = ("key", "expr", "expect", "info", "got", "trans")

    def __init__(self, key, expr, expect="OK", info=None, trans=1):
        self.key, self.expr, self.expect, self.info = key, expr, expect, info
        self.got = None
        self.trans = trans


def observe(run, name, prelude, cases, art, chunk=400, extra=(), timeout=800, postlude="", env=None, main_pre="", compile_env=None):
    """Fill case.got for all cases: the observed string, 'NOCOMPILE <message>' when the
    statement does not compile, or 'PANIC ...'."""
    chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]

    def work(ix, depth=0):
        i, cs = ix
        live = list(range(len(cs)))
        for attempt in range(12):
            if not live:
                return
            head = HEADER + OBS_PRELUDE + prelude + "\n"
            parts = [head]
            line = head.count("\n") + 1
            where = []
            for k in live:
                body = f"fn __c{k}() -> ::std::string::String {{ {cs[k].expr} }}\n"
                n = body.count("\n")
                where.append((line, line + n - 1, k))
                line += n
                parts.append(body)
            parts.append(postlude + "\nfn main() {\n    ::std::panic::set_hook(::std::boxed::Box::new(|_| {}));\n" + main_pre + "\n")
            for k in live:
                parts.append(f"    __guard({k}, __c{k});\n")
            parts.append("}\n")
            p = run.write(f"{name}-{i}.rs", "".join(parts))
            out = run.path(f"{name}-{i}.bin")
            c = rustc(p, out, art, extra, timeout, env=compile_env)
            if c.ok:
                r = run_bin(out, timeout=timeout, env=env)
                try:
                    os.unlink(out)
                except OSError:
                    pass
                last = None
                for l in r.stdout.splitlines():
                    if "\t" in l:
                        a, b = l.split("\t", 1)
                        if a.isdigit():
                            last = int(a)
                            cs[last].got = b
                missing = [k for k in live if cs[k].got is None]
                if missing:
                    cs[missing[0]].got = f"CRASH rc={r.returncode} {r.stderr[-300:]}"
                    live = missing[1:]
                    continue
                return
            bad = set()
            for d in c.diags:
                for lo, hi, k in where:
                    if any(lo <= ln <= hi for ln in d.lines) and cs[k].got is None:
                        cs[k].got = "NOCOMPILE " + d.message
                        bad.add(k)
            if not bad:
                # the prelude itself (the unit system) does not compile
                for k in live:
                    cs[k].got = "NOCOMPILE (prelude) " + (c.diags[0].message if c.diags else c.stderr[-300:])
                return
            live = [k for k in live if k not in bad]
        # errors that keep hiding further errors: decide by halves
        if len(live) > 1 and depth < 12:
            h = len(live) // 2
            work((f"{i}x", [cs[k] for k in live[:h]]), depth + 1)
            work((f"{i}y", [cs[k] for k in live[h:]]), depth + 1)
            return
        raise EngineError(f"{name}: could not isolate compile errors")

    pmap(work, list(enumerate(chunks)))


def check_observations(run, cases, cmp=None, files=None):
    for c in cases:
        run.transitions += c.trans
        run.validated += c.trans
        ok = (c.got == c.expect) if cmp is None else cmp(c)
        if not ok:
            run.violation(c.key, f"expected {c.expect!r}, observed {c.got!r}", dict(expr=c.expr, info=c.info, expect=c.expect, got=c.got), files)
