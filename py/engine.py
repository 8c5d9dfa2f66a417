"""A small exhaustive explorer: families of indexed cases, forked workers, crashes attributed to the case that ran."""
import json, mmap, os, struct, sys, time, traceback

VERIF = os.environ.get("VERIF_DIR", os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
ONLY = os.environ.get("MC_ONLY")
FAMILY = os.environ.get("MC_FAMILY")
CASE_SECONDS = 60
sys.unraisablehook = lambda *_: None  # a constructor that raised leaves a __del__ with nothing to free


class Bad(Exception):
    pass


class Count:
    states = transitions = traces = nontrivial = 0


C = Count()


def need(cond, msg):
    C.traces += 1
    if not cond:
        raise Bad(msg() if callable(msg) else msg)


def judge(fn, item):
    try:
        fn(item)
    except Bad as e:
        return str(e)
    except Exception as e:
        return "unexpected %s: %s [%s]" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].name)
    return None


class Mc:
    def __init__(self, prop):
        self.prop, self.t0, self.fams, self.bad, self.known_hits, self.assumptions = prop, time.time(), [], [], [], []
        self.tot = [0, 0, 0]
        k = json.load(open(f"{VERIF}/known_findings.json"))["known"]
        self.known = [x for x in k if x["property"] == prop]

    def pick(self, q, t):
        return t if THOROUGH else q

    def family(self, name, rule, items, fn):
        if FAMILY and FAMILY not in name:
            return
        items = list(items)
        t0 = time.time()
        todo = list(range(len(items)))
        if ONLY:
            f, i = ONLY.rsplit("#", 1)
            if f != name:
                return
            todo = [int(i)]
        nw = min(8, max(1, len(todo)))
        slots = mmap.mmap(-1, 16 * nw)
        results, pending = [], {}

        def spawn(w, work):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = os.fdopen(wr, "w")
                bad = []
                try:
                    for i in work:
                        slots[16 * w:16 * w + 16] = struct.pack("<qq", i, int(time.time()))
                        m = judge(fn, items[i])
                        if m is not None:
                            bad.append((i, m))
                            if len(bad) >= 20:
                                break
                    out.write(json.dumps(dict(bad=bad, c=[C.states, C.transitions, C.traces, C.nontrivial])))
                    out.flush()
                finally:
                    os._exit(0)
            os.close(wr)
            pending[w] = (pid, r, work)

        for w in range(nw):
            spawn(w, todo[w::nw])
        nt = 0
        import select, signal
        bufs = {w: b"" for w in range(nw)}
        while pending:
            ready, _, _ = select.select([p[1] for p in pending.values()], [], [], 1.0)
            for w in list(pending):
                pid, r, work = pending[w]
                if r in ready:
                    d = os.read(r, 1 << 16)
                    if d:
                        bufs[w] += d
                        continue
                    os.close(r)
                    _, st = os.waitpid(pid, 0)
                    del pending[w]
                    try:
                        o = json.loads(bufs[w])
                        results += o["bad"]
                        for k in range(3):
                            self.tot[k] += o["c"][k]
                        nt += o["c"][3]
                    except ValueError:
                        i, _ = struct.unpack("<qq", slots[16 * w:16 * w + 16])
                        results.append((i, f"the process died (status {st})"))
                        bufs[w] = b""
                        rest = work[work.index(i) + 1:]
                        if rest and len(results) < 20:
                            spawn(w, rest)
                else:
                    i, since = struct.unpack("<qq", slots[16 * w:16 * w + 16])
                    if since and time.time() - since > CASE_SECONDS:
                        os.kill(pid, signal.SIGKILL)
                        os.close(r)
                        os.waitpid(pid, 0)
                        del pending[w]
                        results.append((i, f"no answer within {CASE_SECONDS} s"))
        fresh = []
        for i, msg in sorted(results):
            case = repr(items[i])
            k = next((x for x in self.known if x["family"] == name and x["case"] == case and msg.startswith(x["message_prefix"])), None)
            if k:
                self.known_hits.append(k["what"])
            else:
                fresh.append((i, case, msg))
        for i, case, msg in fresh[:3]:
            d = f"{VERIF}/evidence/replay"
            os.makedirs(d, exist_ok=True)
            p = f"{d}/{self.prop}-{name.replace(' ', '_')}-{i}.txt"
            open(p, "w").write(f"property {self.prop}\nfamily {name}\nindex {i}\ncase {case}\nmessage {msg}\nreplay: cd {VERIF} && VERIF_TIER={'thorough' if THOROUGH else 'quick'} MC_ONLY='{name}#{i}' bash run.sh {self.prop}\n")
            print(f"--- {name} case {i}\n{case}\n{msg}\nVIOLATION property={self.prop} replay={p}")
            self.bad.append(dict(family=name, case=case, message=msg, replay=p))
        self.bad += [dict(family=name, case=c, message=m) for _, c, m in fresh[3:]]
        s = time.time() - t0
        self.fams.append(dict(name=name, space=len(items), explored=len(todo), nontrivial=nt, exhaustive=not ONLY, outside_domain=0, secs=s, rule=rule, samples=[f"{name}: {x!r}"[:200] for x in items[:2]]))
        print(f"[{self.prop}] {name:40} cases {len(todo)}/{len(items)} nontrivial {nt} {s:.1f}s", flush=True)

    def finish(self):
        for w in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        ev = dict(property=self.prop, level="model_checking", tier="thorough" if THOROUGH else "quick", seed=int(os.environ.get("VERIF_SEED", "1")), wall_s=time.time() - self.t0, assumptions=self.assumptions,
                  violations=self.bad,
                  coverage=dict(evaluations=sum(f["explored"] for f in self.fams), distinct_nontrivial=sum(f["nontrivial"] for f in self.fams), exhaustive=not (ONLY or FAMILY), states=self.tot[0], transitions=self.tot[1], traces_validated_against_impl=self.tot[2],
                                rule=" | ".join(f["name"] + ": " + f["rule"] for f in self.fams), samples=[s for f in self.fams for s in f["samples"]],
                                families=[{k: v for k, v in f.items() if k not in ("rule", "samples")} for f in self.fams]))
        if not (ONLY or FAMILY):
            os.makedirs(f"{VERIF}/evidence", exist_ok=True)
            json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        if not self.bad:
            print(f"OK property={self.prop} cases={ev['coverage']['evaluations']} traces={self.tot[2]} wall={ev['wall_s']:.1f}s")
        sys.exit(1 if self.bad else 0)
