#!/usr/bin/env python3
"""Driver of every check: builds the code under test from /repo's working tree, runs the generators of one
property in several processes, shrinks and replays any failure, writes the evidence file.

  check.py PROP [--tier quick|thorough] [--replay FILE] [--seed N] [--scale X]

exit 0: the property held on everything explored; exit 1: "VIOLATION property=PROP replay=FILE".
"""
import argparse, concurrent.futures, hashlib, itertools, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("STENOS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CACHE = os.path.join(BUILD, "cache")
REPLAYS = os.path.join(HERE, "replays")
HARNESS = os.path.join(HERE, "harness")
REFERENCE = os.path.join(HERE, "reference")
JOBS = max(2, min(8, os.cpu_count() or 4))

from plans import PLANS, VARIANTS, RULES, ASSUMPTIONS, CONCURRENT  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- build

_serial = itertools.count()


def tmp_name(out):
    """Two plans may build the same file at the same time."""
    return "%s.%d.%d.tmp" % (out, os.getpid(), next(_serial))


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def source_tree():
    """Copies the library sources of /repo (working tree) to a content-addressed directory."""
    files = []
    for d, _, fs in os.walk(os.path.join(REPO, "stenos")):
        for f in sorted(fs):
            if f == "stenos_config.h" or not re.search(r"\.(h|hpp|cpp|c|inc)$", f):
                continue
            p = os.path.join(d, f)
            files.append((os.path.relpath(p, REPO), read(p)))
    files.sort()
    cfg = b""
    for cand in ("stenos_config.h.in",):
        p = os.path.join(REPO, cand)
        if os.path.exists(p):
            cfg = read(p)
    cm = os.path.join(REPO, "CMakeLists.txt")
    ver = "0.2.0"
    if os.path.exists(cm):
        m = re.search(rb"project\s*\([^)]*VERSION\s+([0-9.]+)", read(cm))
        if m:
            ver = m.group(1).decode()
    v = (ver.split(".") + ["0", "0"])[:2]
    cfg = cfg.replace(b"@PROJECT_VERSION_MAJOR@", v[0].encode()).replace(b"@PROJECT_VERSION_MINOR@", v[1].encode()).replace(b"@PROJECT_VERSION@", ver.encode())
    files.append(("stenos/stenos_config.h", cfg))
    key = sha(*[x for f in files for x in f])
    root = os.path.join(BUILD, "src-" + key)
    if not os.path.exists(root):
        tmp = tempfile.mkdtemp(dir=BUILD)
        for rel, data in files:
            p = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(root)
    libs = sorted(f[0] for f in files if f[0].startswith("stenos/internal/") and f[0].endswith(".cpp"))
    return key, root, libs


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def compiler_id():
    out = subprocess.run(["g++", "-march=native", "-Q", "--help=target"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    return hashlib.sha256(out).hexdigest()


def prune():
    """Keeps the build directory small."""
    def old(d, keep, pred):
        try:
            e = [os.path.join(d, x) for x in os.listdir(d) if pred(x)]
        except OSError:
            return
        e.sort(key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0, reverse=True)
        for p in e[keep:]:
            if time.time() - os.path.getmtime(p) < 3600:
                continue
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
    old(CACHE, 400, lambda x: True)
    old(BUILD, 12, lambda x: x.startswith("src-"))
    old(BUILD, 20, lambda x: x.startswith("run-"))


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        prune()
        self.key, self.root, self.libs = source_tree()
        self.cpu = compiler_id()
        self.hkey = sha(*[x for f in sorted(os.listdir(HARNESS)) if f.endswith((".hpp", ".h")) for x in (f, read(os.path.join(HARNESS, f)))])
        self._ref = None
        self.jobs = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def ref(self):
        """The reference copy of the library, in /verif/reference."""
        if not self._ref:
            parts = []
            for d, ds, fs in os.walk(REFERENCE):
                ds.sort()
                for f in sorted(fs):
                    parts += [os.path.relpath(os.path.join(d, f), REFERENCE), read(os.path.join(d, f))]
            self._ref = (REFERENCE, sha("reference", *parts))
        return self._ref

    def submit(self, *job):
        if job not in self.jobs:
            self.jobs[job] = self.pool.submit(self.obj, *job)
        return self.jobs[job]

    def obj(self, variant, src, is_lib, extra=()):
        v = VARIANTS[variant]
        flags = list(v["flags"]) + (["-std=gnu++14"] if is_lib else ["-std=gnu++17", "-I" + HARNESS]) + list(extra)
        if is_lib:
            flags += v.get("libflags", [])
        cxx = v.get("cxx", "g++")
        root, key = (self.ref() if v.get("reference") else (self.root, self.key))
        ident = (key, src) if is_lib else (key, self.hkey, src, read(os.path.join(HARNESS, src)))
        out = os.path.join(CACHE, sha(cxx, self.cpu, *flags, *ident) + ".o")
        if os.path.exists(out):
            try:
                os.utime(out)
            except OSError:
                pass
            return out
        path = os.path.join(root, src) if is_lib else os.path.join(HARNESS, src)
        tmp = tmp_name(out)
        run_cmd([cxx] + flags + ["-w", "-DSTENOS_STATIC", "-I" + root, "-c", path, "-o", tmp])
        os.rename(tmp, out)
        return out

    def binary(self, variant, harness):
        """harness: tuple of sources; returns a future-like callable"""
        v = VARIANTS[variant]
        futs = []
        if not v.get("nolib"):
            futs += [self.submit(variant, s, True) for s in self.libs]
        for s in harness:  # "file.cpp:-DX=1:-DY=2"
            name, *defs = s.split(":")
            futs.append(self.submit(variant, name, False, tuple(defs)))

        def finish():
            objs = [f.result() for f in futs]
            if v.get("harness_first"):  # the order of static initialization
                objs = objs[-len(harness):] + objs[:-len(harness)]
            out = os.path.join(CACHE, sha(variant, *objs, *v["link"]) + ".exe")
            if not os.path.exists(out):
                tmp = tmp_name(out)
                run_cmd([v.get("cxx", "g++")] + list(v["link"]) + objs + ["-lzstd", "-lpthread", "-ldl", "-o", tmp])
                os.rename(tmp, out)
            return out
        return finish

    def shared(self, variant):
        v = VARIANTS[variant]
        libs = self.libs
        if v.get("reference"):
            d = os.path.join(REFERENCE, "stenos", "internal")
            libs = sorted("stenos/internal/" + f for f in os.listdir(d) if f.endswith(".cpp"))
        futs = [self.submit(variant, s, True) for s in libs]
        for s in v.get("extra", ()):
            name, *defs = s.split(":")
            futs.append(self.submit(variant, name, False, tuple(defs)))

        def finish():
            try:
                objs = [f.result() for f in futs]
            except BuildError as e:
                if not v.get("optional"):
                    raise
                log("left out %s: %s" % (variant, str(e)[-500:]))
                return ""
            out = os.path.join(CACHE, sha("so", variant, *objs, *v["link"]) + ".so")
            if not os.path.exists(out):
                tmp = tmp_name(out)
                run_cmd([v.get("cxx", "g++"), "-shared"] + list(v["link"]) + objs + ["-Wl,-Bsymbolic", "-lzstd", "-lpthread", "-o", tmp])
                os.rename(tmp, out)
            return out
        return finish


# ---------------------------------------------------------------------------------------------- run

MIRROR_HDR = struct.Struct("<5Q4096s8192s")


def read_mirror(path):
    try:
        with open(path, "rb") as f:
            h = f.read(MIRROR_HDR.size)
            if len(h) < MIRROR_HDR.size:
                return None
            magic, state, idx, n, beat, msg, desc = MIRROR_HDR.unpack(h)
            n = min(n, 1 << 18)
            ch = struct.unpack("<%dQ" % n, f.read(8 * n))
    except (OSError, struct.error):
        return None
    return {"state": state, "case": idx, "beat": beat, "msg": msg.split(b"\0")[0].decode("utf8", "replace"),
            "desc": desc.split(b"\0")[0].decode("utf8", "replace"), "choices": list(ch)}


def mirror_beat(path):
    try:
        with open(path, "rb") as f:
            h = f.read(40)
        return struct.unpack("<5Q", h)[1:5] if len(h) == 40 else None
    except (OSError, struct.error):
        return None


def proc_state(pid):
    """(cpu seconds, all threads sleeping)"""
    cpu, asleep = 0.0, True
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                s = f.read()
            s = s[s.rindex(")") + 2:].split()
            if s[0] not in "SZTt":
                asleep = False
            cpu += (int(s[11]) + int(s[12])) / 100.0
    except (OSError, ValueError):
        return None
    return cpu, asleep


def env_for(plan):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=6000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(HARNESS, "tsan.supp")
    e["MALLOC_ARENA_MAX"] = "4"
    e.update(plan.get("env", {}))
    return e


DEAD_S = 20     # all threads asleep for that long while a case runs
CPU_S = 90      # CPU seconds inside one case


class Watch:
    """Decides whether a running process hangs: no progress and either no thread runnable or a lot of CPU time used."""

    def __init__(self, pid, mirror):
        self.pid, self.mirror = pid, mirror
        self.last = None
        self.t = time.time()
        self.cpu0 = 0.0
        self.cpu_last = 0.0
        self.sleep_since = None

    def hung(self):
        b = mirror_beat(self.mirror)
        st = proc_state(self.pid)
        if st is None:
            return None
        cpu, asleep = st
        key = (b[3] if b else None, b[1] if b else None)
        now = time.time()
        if key != self.last:
            self.last, self.t, self.cpu0, self.sleep_since = key, now, cpu, None
        if b is not None and b[0] not in (1,):
            self.sleep_since = None
        if asleep and cpu - self.cpu_last < 0.02 and b is not None and b[0] == 1:
            if self.sleep_since is None:
                self.sleep_since = now
        else:
            self.sleep_since = None
        self.cpu_last = cpu
        if self.sleep_since is not None and now - self.sleep_since > DEAD_S:
            return "deadlock: every thread of the process has been asleep for %d s inside one case" % DEAD_S
        if cpu - self.cpu0 > CPU_S and b is not None and b[0] == 1:
            return "no end after %d CPU seconds inside one case" % CPU_S
        return None


def classify(rc, text, mir):
    """None if the run says nothing about the property (killed, harness error)."""
    if rc == 0:
        return None
    if rc == 77:
        return "oracle"
    if rc == 78 or "Sanitizer" in text:
        if "out-of-memory" in text or "allocation-size-too-big" in text and "Harness" in text:
            return None
        return "sanitizer"
    if rc < 0:
        if -rc in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            return None
        return "crash"
    if rc in (2, 3, 126, 127):
        return None
    return "crash"


class Shard:
    def __init__(self, exe, plan, prop, seed, shard, nshards, cases, secs, rundir, tag):
        self.plan, self.seed, self.shard, self.nshards, self.cases, self.secs = plan, seed, shard, nshards, cases, secs
        self.base = os.path.join(rundir, "%s-%d" % (tag, shard))
        self.cmd = [exe, "--prop", prop, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--cases", str(cases),
                    "--secs", str(secs), "--out", self.base + ".json", "--mirror", self.base + ".mirror"] + plan.get("args", [])
        self.p = None
        self.rc = None
        self.hang = None

    def start(self):
        self.errf = open(self.base + ".err", "wb")
        self.p = subprocess.Popen(self.cmd, stdout=self.errf, stderr=self.errf, env=env_for(self.plan), start_new_session=True, cwd=os.path.dirname(self.base))
        self.w = Watch(self.p.pid, self.base + ".mirror")

    def poll(self):
        if self.rc is not None:
            return True
        r = self.p.poll()
        if r is None:
            h = self.w.hung()
            if h:
                self.hang = h
                kill(self.p)
                self.rc = self.p.wait()
                self.errf.close()
                return True
            return False
        self.rc = r
        self.errf.close()
        return True

    def text(self):
        try:
            with open(self.base + ".err", "rb") as f:
                return f.read()[:20000].decode("utf8", "replace")
        except OSError:
            return ""

    def verdict(self):
        m = read_mirror(self.base + ".mirror")
        if self.hang:
            return {"kind": "hang", "msg": self.hang, "mirror": m, "text": self.text()}
        k = classify(self.rc, self.text(), m)
        if k is None:
            return None
        msg = m["msg"] if m and m["msg"] else ""
        if k != "oracle":
            msg = summarize(self.text(), self.rc)
        return {"kind": k, "msg": msg, "mirror": m, "text": self.text()}


def summarize(text, rc):
    for pat in (r"ERROR: AddressSanitizer: ([^\n]*)", r"WARNING: ThreadSanitizer: ([^\n]*)", r"runtime error: ([^\n]*)", r"ERROR: (\w+Sanitizer: [^\n]*)"):
        m = re.search(pat, text)
        if m:
            fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]{1,160})", text)
            fr = [f for f in fr if "libasan" not in f and "libtsan" not in f and "interceptor" not in f][:3]
            return m.group(1)[:200] + " | " + " < ".join(fr)
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            pass
    tail = text.strip().splitlines()
    return "exit code %d: %s" % (rc, tail[-1][:200] if tail else "")


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def replay_once(exe, plan, prop, choices, rundir, tag, timeout=120):
    """Runs one explicit case; returns a verdict dict or None when it passes."""
    base = os.path.join(rundir, tag)
    with open(base + ".in", "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    return replay_file(exe, plan, prop, base + ".in", base, timeout)


def replay_file(exe, plan, prop, path, base, timeout=120):
    mir = base + ".mirror"
    if os.path.exists(mir):
        os.unlink(mir)
    with open(base + ".err", "wb") as ef:
        p = subprocess.Popen([exe, "--prop", prop, "--replay", path, "--mirror", mir] + plan.get("args", []), stdout=ef, stderr=ef, env=env_for(plan),
                             start_new_session=True, cwd=rundir_of(base))
        w = Watch(p.pid, mir)
        hang = None
        t0 = time.time()
        while p.poll() is None:
            time.sleep(0.01 if time.time() - t0 < 2 else 0.1)
            if time.time() - t0 > 3:
                hang = w.hung()
                if hang:
                    kill(p)
                    p.wait()
                    break
            if time.time() - t0 > timeout + DEAD_S:
                kill(p)
                p.wait()
                return None
        rc = p.returncode
    with open(base + ".err", "rb") as f:
        text = f.read()[:20000].decode("utf8", "replace")
    m = read_mirror(mir)
    try:
        os.unlink(mir)
    except OSError:
        pass
    if hang:
        return {"kind": "hang", "msg": hang, "mirror": m, "text": text}
    k = classify(rc, text, m)
    if k is None:
        return None
    return {"kind": k, "msg": (m["msg"] if k == "oracle" and m else summarize(text, rc)), "mirror": m, "text": text}


def rundir_of(base):
    return os.path.dirname(base)


def shrink(exe, plan, prop, choices, rundir, budget):
    """Greedy delta debugging over the choice sequence, several candidates at a time."""
    t_end = time.time() + budget
    best = list(choices)
    tries = 0
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def attempt(cands):
        nonlocal best, tries
        cands = [c for c in cands if c != best]
        for i in range(0, len(cands), JOBS):
            if time.time() > t_end:
                return False
            batch = cands[i:i + JOBS]
            fs = [pool.submit(replay_once, exe, plan, prop, c, rundir, "shrink%d" % j, 40) for j, c in enumerate(batch)]
            rs = [f.result() for f in fs]
            tries += len(batch)
            for c, r in zip(batch, rs):
                if r is not None:
                    if r["mirror"] and r["kind"] == "oracle" and len(r["mirror"]["choices"]) < len(c):
                        c = r["mirror"]["choices"]
                    best = c
                    return True
        return False

    def key(c):
        return (len(c), sum(min(x, 1 << 40) for x in c))

    progress = True
    while progress and time.time() < t_end:
        progress = False
        # cut the tail
        n = len(best)
        cands = [best[:n - k] for k in (n // 2, n // 4, n // 8, 4, 2, 1) if 0 < k < n]
        if attempt(cands):
            progress = True
            continue
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            hit = False
            while i < len(best) and time.time() < t_end:
                cands = []
                for j in range(i, min(len(best), i + size * JOBS), size):
                    cands.append(best[:j] + best[j + size:])
                if attempt(cands):
                    hit = progress = True
                else:
                    i += size * JOBS
            size //= 2
            if hit and size < 1:
                break
        # zero / lower single numbers
        i = 0
        while i < len(best) and time.time() < t_end:
            v = best[i]
            if v:
                cands = []
                for nv in (0, v // 2, v - 1):
                    if nv < v:
                        cands.append(best[:i] + [nv] + best[i + 1:])
                if attempt(cands):
                    progress = True
                    continue
            i += 1
    pool.shutdown(wait=True)
    return best, tries


def write_replay(prop, plan, seed, choices, verdict, extra=""):
    os.makedirs(REPLAYS, exist_ok=True)
    h = sha(prop, plan["variant"], *map(str, choices))[:10]
    path = os.path.join(REPLAYS, "%s-%s-%s.replay" % (prop, plan["variant"], h))
    with open(path, "w") as f:
        f.write("# property %s\n# variant %s\n# harness %s\n# prop %s\n# seed %d\n" % (prop, plan["variant"], " ".join(plan["harness"]), plan["prop"], seed))
        f.write("# run with: python3 check.py %s --replay %s\n" % (prop, os.path.relpath(path, HERE)))
        f.write("# failure: %s: %s\n" % (verdict["kind"], verdict["msg"].replace("\n", " ")[:1500]))
        if verdict.get("mirror") and verdict["mirror"]["desc"]:
            f.write("# case: %s\n" % verdict["mirror"]["desc"].replace("\n", " ")[:3000])
        if extra:
            f.write("# %s\n" % extra)
        for i in range(0, len(choices), 32):
            f.write(" ".join(map(str, choices[i:i + 32])) + "\n")
    return path


# ---------------------------------------------------------------------------------------------- known findings

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ---------------------------------------------------------------------------------------------- main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--only", help="only plans of this variant")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    plans = [dict(p) for p in PLANS[prop]]
    if a.only:
        plans = [p for p in plans if p["variant"] == a.only]
    b = Builder()
    try:
        for p in plans:
            p["fin"] = b.binary(p["variant"], p["harness"])
            p["libs"] = [(n, b.shared(v)) for n, v in p.get("shared", [])]
        for p in plans:
            p["exe"] = p["fin"]()
            env = dict(p.get("env", {}))
            for n, f in p["libs"]:
                env[n] = f()
            p["env"] = env
    except BuildError as e:
        # The code under test (or the harness against it) does not compile: nothing was decided.
        log("BUILD FAILED\n" + str(e))
        return 3
    t_build = time.time() - t0
    rundir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        if a.replay:
            return do_replay(a, prop, plans, rundir)
        return explore(a, prop, plans, rundir, t0, t_build)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def do_replay(a, prop, plans, rundir):
    head = {}
    for line in open(a.replay):
        m = re.match(r"# (\w+) (.*)", line)
        if m and m.group(1) not in head:
            head[m.group(1)] = m.group(2).strip()
    for p in plans:
        if p["variant"] == head.get("variant", p["variant"]) and p["prop"] == head.get("prop", p["prop"]):
            n = 30 if prop in CONCURRENT else 3
            for i in range(n):
                r = replay_file(p["exe"], p, p["prop"], os.path.abspath(a.replay), os.path.join(rundir, "replay"))
                if r:
                    print(r["kind"], r["msg"])
                    print(r["text"][:6000])
                    print("VIOLATION property=%s replay=%s" % (prop, a.replay))
                    return 1
            print("replay passes (variant %s)" % p["variant"])
            return 0
    print("no such plan")
    return 0


def explore(a, prop, plans, rundir, t0, t_build):
    tier = a.tier
    queue = []
    for pi, p in enumerate(plans):
        cases, secs, n = p[tier]
        cases = max(n, int(cases * a.scale))
        for s in range(n):
            queue.append((pi, Shard(p["exe"], p, p["prop"], a.seed * 64 + pi, s, n, cases, secs, rundir, "p%d" % pi)))
    # interleave the plans
    order = sorted(range(len(queue)), key=lambda i: (queue[i][1].shard, queue[i][0]))
    pending = [queue[i] for i in order]
    running, done = [], []
    failure = None
    par = JOBS
    inconclusive, reached = [], []
    while (pending or running) and failure is None:
        while pending and len(running) < par:
            x = pending.pop(0)
            x[1].start()
            running.append(x)
        time.sleep(0.1)
        for x in list(running):
            if x[1].poll():
                running.remove(x)
                done.append(x)
                v = x[1].verdict()
                if v is not None:
                    v["shard"] = x[1]
                    v["plan"] = plans[x[0]]
                    ok, rep = confirm(a, prop, v, rundir)
                    if ok:
                        failure = rep
                        break
                    (reached if rep == "known" else inconclusive).append("%s/%s shard %d: %s %s" % (v["plan"]["variant"], v["plan"]["prop"], x[1].shard, v["kind"], v["msg"][:200]))
                elif x[1].rc != 0:
                    inconclusive.append("shard %d ended with %s: %s" % (x[1].shard, x[1].rc, x[1].text()[-200:]))
    for x in running:
        kill(x[1].p)
        x[1].p.wait()
        x[1].poll()
        done.append(x)
    # merge statistics
    ev = nt = dis = 0
    hashes = set()
    labels = {}
    samples = []
    per = []
    for pi, p in enumerate(plans):
        pev = 0
        for q, s in done:
            if q != pi:
                continue
            try:
                d = json.load(open(s.base + ".json"))
            except (OSError, ValueError):
                continue
            ev += d["evaluations"]
            pev += d["evaluations"]
            dis += d["discarded"]
            for h in d["hashes"]:
                hashes.add((p["prop"], h))
            for k, v in d["labels"].items():
                labels[k] = labels.get(k, 0) + v
            if len(samples) < 10:
                samples += ["[%s] %s" % (p["variant"], x) for x in d["samples"][:1]]
        per.append({"variant": p["variant"], "generator": p["prop"], "evaluations": pev, "shards": p[tier][2]})
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": RULES[prop], "samples": [s[:700] for s in samples[:8]],
           "discarded": dis, "labels": dict(sorted(labels.items())), "plans": per, "exhaustive": False, "build_s": round(t_build, 1)}
    if reached:
        cov["known_findings_reached"] = reached[:10]
    if inconclusive:
        cov["inconclusive"] = inconclusive[:10]
    evd = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS.get(prop, []),
           "wall_s": round(time.time() - t0, 2), "violations": 1 if failure and failure[0] == "violation" else 0}
    known = failure is not None and failure[0] == "known"
    if failure:
        cov["failure"] = failure[2][:1500]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
        f.write("\n")
    log("%s %s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (prop, tier, ev, len(hashes), t_build, time.time() - t0, " INCONCLUSIVE " + str(inconclusive) if inconclusive else ""))
    for rx, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if failure and not known:
        print(failure[2])
        print("VIOLATION property=%s replay=%s" % (prop, failure[1]))
        return 1
    if ev == 0:
        log("nothing was explored")
        return 3
    return 0


def confirm(a, prop, v, rundir):
    """Replays the failing case, shrinks it and writes the replay file. Returns (True, (kind, path, text)) when it is a violation."""
    plan, m = v["plan"], v["mirror"]
    if not m:
        return False, None
    for rx, what in known_findings(prop):
        if rx.search(v["msg"]):
            return False, "known"
    choices = m["choices"]
    log("failure in case %d (%s): %s\n  %s" % (m["case"], v["kind"], v["msg"], m["desc"][:1500]))
    tries = 30 if prop in CONCURRENT else 4
    got = None
    t_end = time.time() + 150
    hits = n = 0
    for i in range(tries):
        if time.time() > t_end:
            break
        n += 1
        r = replay_once(plan["exe"], plan, plan["prop"], choices, rundir, "confirm", 60)
        if r:
            got = got or r
            hits += 1
            if hits >= 2 or v["kind"] == "hang" or prop in CONCURRENT:
                break
    extra = "reproduced %d times in %d replays" % (hits, n)
    if not hits:
        # the failure may need the history of the process: run the same shard up to the case again
        s = v["shard"]
        for i in range(2):
            t = Shard(plan["exe"], plan, plan["prop"], s.seed, s.shard, s.nshards, min(s.cases, m["case"] + 1), max(60, s.secs * 3), rundir, "again%d" % i)
            t.start()
            while not t.poll():
                time.sleep(0.1)
            r = t.verdict()
            if r:
                got = r
                choices = r["mirror"]["choices"] if r["mirror"] else choices
                extra = "fails only after the preceding cases of the process: " + " ".join(t.cmd[1:11])
                break
        if not got and prop in CONCURRENT and v["kind"] in ("oracle", "sanitizer", "crash"):
            # schedules do not repeat: an explicit report of the oracle stands on its own
            got = v
            extra = "observed once, the schedule did not come back in %d replays" % n
        if not got:
            return False, None
        path = write_replay(prop, plan, a.seed, choices, got, extra)
        return True, ("violation", path, "%s: %s\n%s" % (got["kind"], got["msg"], m["desc"][:1000]))
    if not a.no_shrink and v["kind"] != "hang" and not (prop in CONCURRENT and hits * 2 < n):
        small, t = shrink(plan["exe"], plan, plan["prop"], choices, rundir, 45 if a.tier == "quick" else 180)
        r = None
        for i in range(3 if prop not in CONCURRENT else 10):
            r = replay_once(plan["exe"], plan, plan["prop"], small, rundir, "confirm", 60)
            if r:
                break
        if r:
            choices, got = small, r
            extra += "; shrunk with %d runs from %d to %d choices" % (t, len(m["choices"]), len(small))
    path = write_replay(prop, plan, a.seed, choices, got, extra)
    desc = got["mirror"]["desc"][:1500] if got.get("mirror") else ""
    return True, ("violation", path, "%s: %s\n  case: %s\n  %s" % (got["kind"], got["msg"], desc, extra))


if __name__ == "__main__":
    sys.exit(main())
