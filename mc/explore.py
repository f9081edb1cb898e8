"""The explorer of mc/explore.h for checks of Python code: depth first over all
choices, split over worker processes, violations replayed in a fresh process."""
import hashlib
import json
import mmap
import os
import signal
import struct
import sys
import time


class Prune(Exception):
    pass


class NotMine(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Diverged(Exception):
    pass


class Ctx:
    def __init__(self, thorough, workers=1, me=0, split=1, shared=None):
        self.thorough, self.workers, self.me, self.split, self.shared = thorough, workers, me, split, shared
        self.stack = []  # [choice, arity]
        self.transitions = self.validated = 0
        self.states = set()
        self.counters = {}
        self.fixed = False
        self.start()

    def start(self):
        self.pos = 0
        self.desc = ""
        self.interesting = False
        self.owned = self.workers == 1
        if self.shared:
            self.shared[8:12] = struct.pack("i", 0)

    def choose(self, n):
        assert n > 0
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e[1] is None:
                e[1] = n
            if e[1] != n or e[0] >= n:
                raise Diverged("choice %d has %d options, had %s" % (self.pos, n, e[1]))
        else:
            if self.fixed:
                raise Diverged("more choices than recorded")
            self.stack.append([0, n])
        c = self.stack[self.pos][0]
        self.pos += 1
        self.transitions += 1
        if self.shared and self.pos < 1000:
            self.shared[12 + 4 * self.pos:16 + 4 * self.pos] = struct.pack("i", c)
            self.shared[8:12] = struct.pack("i", self.pos)
        if self.pos == self.split and not self.owned:
            # Spread the prefixes evenly.
            h = 0
            for k, (v, _) in enumerate(self.stack[:self.pos]):
                h = (h * 31 + v) % 1000003
            if h % self.workers != self.me:
                raise NotMine()
            self.owned = True
        return c

    def flip(self):
        return self.choose(2) == 1

    def among(self, options):
        return options[self.choose(len(options))]

    def pick(self, quick, deep):
        return deep if self.thorough else quick

    def require(self, ok):
        if not ok:
            raise Prune()

    def check(self, ok, key, msg):
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).digest()[:8])

    def judged(self, n=1):
        self.validated += n

    def nontrivial(self):
        self.interesting = True

    def describe(self, s):
        self.desc = s

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def advance(self):
        del self.stack[self.pos:]
        while self.stack:
            if self.stack[-1][0] + 1 < self.stack[-1][1]:
                self.stack[-1][0] += 1
                return True
            self.stack.pop()
        return False


def run_one(scenario, c):
    """"ok", "pruned", "skip" or (key, message)."""
    c.start()
    try:
        scenario["body"](c)
        if not c.owned and c.me != 0:
            return "skip"
        return "ok"
    except Prune:
        return "pruned" if c.owned or c.me == 0 else "skip"
    except NotMine:
        return "skip"
    except Violation as v:
        return (v.key, v.msg) if c.owned or c.me == 0 else "skip"
    except Diverged as e:
        return ("replay-divergence", str(e))
    except Exception as e:  # the code under test raised where it should not
        import traceback
        return ("exception", "%s: %s" % (type(e).__name__, e) + " at " + traceback.format_exc().strip().split("\n")[-3].strip()) if c.owned or c.me == 0 else "skip"


def quiet():
    if not os.environ.get("MC_SHOW"):
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)


def alone(scenario, choices, thorough, limit):
    """Replays in a child: ("ok"|"violation"|"crash"|"hang", text)."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        quiet()
        c = Ctx(thorough)
        c.stack = [[x, None] for x in choices]
        r = run_one(scenario, c)
        os._exit(9 if isinstance(r, tuple) else 0)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "hang", "does not terminate within %d s" % limit
        time.sleep(.01)
    if os.WIFEXITED(st):
        e = os.WEXITSTATUS(st)
        return ("ok", "") if e == 0 else ("violation", "") if e == 9 else ("crash", "process exits with status %d" % e)
    return "crash", "process is killed by signal %d" % os.WTERMSIG(st)


def main(argv, scenarios):
    o = {"--out": "", "--known": "", "--workers": "8", "--budget": "600", "--stall": "60", "--replay": "", "--only": ""}
    thorough = "--thorough" in argv
    for i, a in enumerate(argv):
        if a in o:
            o[a] = argv[i + 1]
    if o["--replay"]:
        name, ch = "", []
        for line in open(o["--replay"]):
            w = line.split()
            if w[:1] == ["scenario"]:
                name = w[1]
            if w[:1] == ["tier"]:
                thorough = w[1] == "thorough"
            if w[:1] == ["choices"]:
                ch = [int(x) for x in w[1:]]
        for s in scenarios:
            if s["name"] == name:
                c = Ctx(thorough)
                c.stack = [[x, None] for x in ch]
                out = os.dup(1)
                quiet()
                r = run_one(s, c)
                os.write(out, ("replay: scenario=%s %s\n  %s\n" % (name, c.desc, r)).encode())
                return 1 if isinstance(r, tuple) else 0
        return 3
    t0 = time.time()
    survey = os.environ.get("MC_SURVEY")
    known = set(l.strip() for l in open(o["--known"])) if o["--known"] else set()
    todo = [s for s in scenarios if (thorough or not s.get("thorough_only")) and o["--only"] in ("", s["name"])]
    W = int(o["--workers"])
    budget, stall = float(o["--budget"]), float(o["--stall"])
    base = o["--out"] or "/tmp/mc_py"
    shared = [mmap.mmap(-1, 8192) for _ in range(W)]
    stop = mmap.mmap(-1, 4096)
    pids = {}
    for w in range(W):
        pid = os.fork()
        if pid:
            pids[pid] = w
            continue
        quiet()
        res = {"stat": {}, "viol": [], "rep": {}, "samples": [], "counters": {}}
        for k, s in enumerate(todo):
            c = Ctx(thorough, W, w, s.get("split", 2), shared[w])
            shared[w][0:4] = struct.pack("i", k)
            ex = pr = nt = 0
            capped = False
            samples = 0
            n = 0
            while True:
                before = c.transitions
                r = run_one(s, c)
                n += 1
                shared[w][4:8] = struct.pack("i", n)
                if r == "skip":
                    c.transitions = before
                elif r == "pruned":
                    pr += 1
                else:
                    ex += 1
                    nt += c.interesting
                    if r == "ok" and c.interesting and samples < 2 and c.desc:
                        res["samples"].append(s["name"] + ": " + c.desc)
                        samples += 1
                    if isinstance(r, tuple):
                        m = res["rep"].get(r[0], 0)
                        res["rep"][r[0]] = m + 1
                        if m < 3:
                            res["viol"].append({"scenario": s["name"], "key": r[0], "msg": r[1], "desc": c.desc,
                                                "choices": " ".join(str(x[0]) for x in c.stack[:c.pos])})
                        if r[0] not in known and not survey:
                            stop[0] = 1
                if stop[0] or time.time() - t0 > budget:
                    capped = True
                    break
                if not c.advance():
                    break
            res["stat"][s["name"]] = dict(executions=ex, pruned=pr, nontrivial=nt, transitions=c.transitions, validated=c.validated,
                                          capped=capped, states=[x.hex() for x in c.states])
            for a, b in c.counters.items():
                res["counters"][s["name"] + "." + a] = b
            if stop[0]:
                break
        with open("%s.w%d" % (base, w), "w") as f:
            json.dump(res, f)
        os._exit(0)
    found, internal = [], False
    last = {w: (-1, time.time()) for w in range(W)}
    while pids:
        for pid in list(pids):
            w = pids[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            n = struct.unpack("ii", shared[w][0:8])
            hang = False
            if not p:
                if n != last[w][0]:
                    last[w] = (n, time.time())
                elif time.time() - last[w][1] > stall:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    hang = True
                if not hang:
                    continue
            del pids[pid]
            if not hang and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                continue
            ln = struct.unpack("i", shared[w][8:12])[0]
            ch = [struct.unpack("i", shared[w][12 + 4 * i:16 + 4 * i])[0] for i in range(1, ln + 1)]
            s = todo[n[0]]
            kind, text = alone(s, ch, thorough, 2 * stall if hang else stall)
            if kind in ("crash", "hang"):
                found.append({"scenario": s["name"], "key": kind + ":" + s["name"], "msg": text, "desc": "", "choices": " ".join(map(str, ch))})
                stop[0] = 1
            else:
                sys.stderr.write("worker died on a case that does not reproduce: %s %s\n" % (s["name"], ch))
                internal = True
        time.sleep(.01)
    tot = {s["name"]: dict(executions=0, pruned=0, nontrivial=0, transitions=0, validated=0, capped=False, states=set()) for s in todo}
    samples, counters, known_hits, rep = [], {}, {}, {}
    for w in range(W):
        f = "%s.w%d" % (base, w)
        if not os.path.exists(f):
            continue
        d = json.load(open(f))
        os.unlink(f)
        for name, st in d["stat"].items():
            t = tot[name]
            for k in ("executions", "pruned", "nontrivial", "transitions", "validated"):
                t[k] += st[k]
            t["capped"] |= st["capped"]
            t["states"] |= set(st["states"])
        samples += d["samples"]
        for a, b in d["counters"].items():
            counters[a] = counters.get(a, 0) + b
        for k, n in d["rep"].items():
            rep[k] = rep.get(k, 0) + n
        for v in d["viol"]:
            if v["key"] in known:
                known_hits[v["key"]] = [d["rep"][v["key"]] + known_hits.get(v["key"], [0])[0], v["msg"]]
            else:
                found.append(v)
    if survey:
        for k, n in rep.items():
            print("survey [%s] %d" % (k, n))
            for v in [v for v in found if v["key"] == k][:3]:
                print("    %s: %s case: %s" % (v["scenario"], v["msg"], v["desc"]))
    confirmed = []
    for v in found:
        if len(confirmed) >= 5:
            break
        s = [s for s in todo if s["name"] == v["scenario"]][0]
        kind, _ = alone(s, [int(x) for x in v["choices"].split()], thorough, 2 * stall)
        if kind == "ok":
            sys.stderr.write("violation does not replay: %s\n" % v)
            internal = True
            continue
        confirmed.append(v)
    if o["--out"]:
        g = lambda k: sum(t[k] for t in tot.values())
        out = {k: g(k) for k in ("executions", "pruned", "nontrivial", "transitions", "validated")}
        out.update(states=sum(len(t["states"]) for t in tot.values()), capped=int(any(t["capped"] for t in tot.values())),
                   wall=round(time.time() - t0, 2), counters=counters, samples=samples[:24], known=known_hits, violations=confirmed)
        out["scenarios"] = {s["name"]: dict(executions=tot[s["name"]]["executions"], pruned=tot[s["name"]]["pruned"],
                                            nontrivial=tot[s["name"]]["nontrivial"], transitions=tot[s["name"]]["transitions"],
                                            validated=tot[s["name"]]["validated"], states=len(tot[s["name"]]["states"]),
                                            complete=not tot[s["name"]]["capped"], bounds=s["bounds"]) for s in todo}
        with open(o["--out"], "w") as f:
            json.dump(out, f)
    for v in confirmed:
        print("violated: %s [%s] %s case: %s" % (v["scenario"], v["key"], v["msg"], v["desc"]))
    return 1 if confirmed else 3 if internal else 0
