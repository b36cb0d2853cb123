"""Shared by the checks: building the monitors from /repo's working tree, running them, verdicts, evidence."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
LINT = "pub_use_of_private_extern_crate"  # json_quote relies on this being a warning (see /opt/vp/build.sh)
NIGHTLY, STABLE = "nightly-x86_64-unknown-linux-gnu", "stable-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"


class Problem(Exception):
    """something is wrong with the check or its surroundings: no verdict"""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def env(toolchain=STABLE, **more):
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO") or k.startswith("RUST") or k.startswith("MIRI"))}
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update({k: str(v) for k, v in more.items()})
    return e


def run(cmd, timeout, cwd=None, e=None, cpu=None, stdin=None):
    """-> (returncode or None on timeout, stdout, stderr, cpu seconds)"""
    def pre():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    r0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=pre, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = None
    r1 = resource.getrusage(resource.RUSAGE_CHILDREN)
    return rc, out, err, (r1.ru_utime + r1.ru_stime) - (r0.ru_utime + r0.ru_stime)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "json_derive"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def fresh(target):
    """cargo goes by modification times: if the tree's content is not the one of the last build here, forget the build of its crates"""
    os.makedirs(target, exist_ok=True)
    mark, now = os.path.join(target, "tree-hash"), tree_hash()
    was = open(mark).read() if os.path.exists(mark) else None
    if was is not None and was != now:
        shutil.rmtree(target)
        os.makedirs(target)
    open(mark, "w").write(now)
    return target


def wrapper():
    p = os.path.join(HARNESS, "target", "wrap.sh")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write('#!/bin/sh\nexec "$@" -W %s\n' % LINT)
    os.chmod(p, 0o755)
    return p


def build(kind="release", timeout=600):
    """builds the monitors; -> directory of the binaries"""
    t = fresh(os.path.join(HARNESS, "target"))
    if kind == "release":
        cmd, e, d = ["cargo", "build", "--release", "--offline", "-q"], env(CARGO_TARGET_DIR=t), os.path.join(t, "release")
    elif kind == "asan":
        t2 = fresh(os.path.join(HARNESS, "target", "asan"))
        cmd = ["cargo", "build", "--release", "--offline", "-q", "--target", HOST]
        e, d = env(NIGHTLY, CARGO_TARGET_DIR=t2, RUSTFLAGS="-Zsanitizer=address", RUSTC_WRAPPER=wrapper()), os.path.join(t2, HOST, "release")
    elif kind == "tsan":
        t2 = fresh(os.path.join(HARNESS, "target", "tsan"))
        cmd = ["cargo", "build", "--release", "--offline", "-q", "-Zbuild-std", "--target", HOST]
        e, d = env(NIGHTLY, CARGO_TARGET_DIR=t2, RUSTFLAGS="-Zsanitizer=thread", RUSTC_WRAPPER=wrapper()), os.path.join(t2, HOST, "release")
    rc, out, err, _ = run(cmd, timeout, cwd=HARNESS, e=e)
    if rc != 0:
        raise Problem("the monitors do not build (%s):\n%s" % (kind, tail(err)))
    return d


def miri_cmd(args, flags=""):
    t2 = os.path.join(HARNESS, "target", "miri")
    cmd = ["cargo", "miri", "run", "-v", "-Zhost-config", "-Ztarget-applies-to-host", "--config", "target-applies-to-host=false",
           "--config", 'host.rustflags=["-W","%s"]' % LINT, "--offline", "--bin", "mini", "--"] + args
    return cmd, env(NIGHTLY, CARGO_TARGET_DIR=t2, MIRIFLAGS="-Zmiri-disable-isolation " + flags)


def tail(s, n=3000):
    return s[-n:]


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + "..."


def known(prop):
    """the listed findings of a property: {key: what fails}"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def save_replay(prop, data):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, "%s.replay.json" % prop)
    json.dump(dict(property=prop, **data), open(p, "w"), indent=1)
    return p


def write_evidence(prop, tier, seed, wall, cov, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": violations, "assumptions": assumptions}
    p = os.path.join(EVID, prop + ".json")
    json.dump(d, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


def signal_name(rc):
    try:
        return signal.Signals(-rc).name
    except Exception:
        return str(rc)
