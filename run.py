#!/usr/bin/env python3
"""run.py <property> [--thorough] | --replay FILE

Decides one property on /repo's current working tree.  Exit 0: held on everything explored; 1: violated (with a
VIOLATION line); 2: the machinery failed and nothing is claimed."""
import hashlib, importlib, json, os, random, re, shutil, sys, tempfile, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path[:0] = [str(VERIF / "lib"), str(VERIF / "gen"), str(VERIF / "checks")]
import conform, dicts, vbuild
from conform import ModelError, Session

KNOWN = VERIF / "known-findings.json"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.scratch = Path(tempfile.mkdtemp(prefix="vp-%s-" % prop.lower()))
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models = [], [], []
        self.violations, self.known_hits = [], []
        self.known = [k for k in json.loads(KNOWN.read_text())["findings"] if k["property"] == prop] if KNOWN.exists() else []
        self._drv, self.dictpath = {}, ""
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def driver(self, flavour="asan"):
        if flavour not in self._drv:
            d = self.scratch / ("build-" + flavour)
            d.mkdir()
            self._drv[flavour] = vbuild.build_driver(d, flavour, dictpath=self.dictpath)
        return self._drv[flavour]

    # ---- dictionaries ----
    def write_dicts(self, ds, sub="dicts"):
        root = self.scratch / sub
        root.mkdir()
        for d in ds:
            d.write(root)
            (root / (d.name + ".json")).write_text(json.dumps(d.json()))
        return root

    # ---- TLC on a model of the specification ----
    def model(self, module, cfg, workers=4, heap="4g", timeout=700, what="", env=None, expect_error=None, extra=()):
        rc, out = conform.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, env=env, extra=extra)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        g, d = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        if expect_error:
            if expect_error not in out:
                raise ModelError("model %s should have shown %r\n%s" % (module, expect_error, out[-3000:]))
        elif rc != 0 or "No error has been found" not in out:
            raise ModelError("the specification itself violates its laws (%s):\n%s" % (module, out[-5000:]))
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "what": what, "generated": g, "distinct": d})
        return out

    # ---- recorded histories of the real code against the specification ----
    def validate(self, sessions, root=None, flavour="asan", jobs=8, timeout=300, recorder=None, chunk=None, module="Trace"):
        drv = None if recorder else self.driver(flavour)
        t0 = time.time()

        def rec(s):
            if recorder:
                return recorder(s)
            evs = conform.record(drv, s, timeout)
            if evs and evs[-1]["op"] == "crash" and "no answer within" in evs[-1].get("why", ""):
                evs = conform.record(drv, s, timeout * 2)      # not an effect of the load on the machine?
            return evs
        recs = conform.pmap(rec, sessions, jobs)
        t1 = time.time()
        # shards of about equal size; sessions with the same dictionary stay together
        shards = [[] for _ in range(jobs if chunk is None else max(jobs, chunk))]
        size = [0] * len(shards)
        weight = [sum(5 + len(e.get("t", ())) + 10 * len(e.get("table", ())) for e in l) for l in recs]
        order = sorted(range(len(sessions)), key=lambda i: -weight[i])
        for i in order:
            k = size.index(min(size))
            shards[k].append(i)
            size[k] += weight[i]
        res = conform.pmap(lambda sh: self._shard(sh, sessions, recs, root, module), [s for s in shards if s], jobs)
        for v in res:
            self.violations += v
        self.traces += len(sessions)
        self.events += sum(map(len, recs))
        if recs and len(self.samples) < 6:
            r = recs[0]
            self.samples += [{k: (conform.show(v) if k in ("t",) and isinstance(v, list) else v) for k, v in e.items()} for e in r[1:4]]
        self.notes.append("%d sessions, %d events: recorded in %.1f s, checked in %.1f s" % (len(sessions), sum(map(len, recs)), t1 - t0, time.time() - t1))
        return recs

    def _shard(self, ids, sessions, recs, root, module="Trace"):
        bad = []
        evs, where = [], []
        used = set()
        for i in ids:
            evs.append({"op": "reset", "h": 0, "n": 0, "r": []})
            where.append(None)
            for k, e in enumerate(recs[i]):
                evs.append(e)
                where.append((i, k))
                if e["op"] == "open":
                    used.add(e["d"])
            used.update(getattr(sessions[i], "uses", ()))
        f = self.scratch / ("dicts-%d-%d.json" % (ids[0], int(time.time() * 1e6) % 10**9))
        f.write_text("{" + ",".join(json.dumps(d) + ":" + (root / (d + ".json")).read_text() for d in sorted(used) if root and (root / (d + ".json")).exists()) + "}")
        skip = set()
        while True:
            cur = [j for j in range(len(evs)) if j not in skip]
            r = conform.check_events([evs[j] for j in cur], f, timeout=850, stats=self, module=module)
            if r is None:
                break
            at, msg = cur[r[0]], r[1]
            i, k = where[at]
            ev = evs[at]
            hit = self.match_known(ev, sessions[i])
            if hit is None:
                bad.append((sessions[i], k, ev, ev.get("why", msg) if ev["op"] == "crash" else msg))
                # continue with the other sessions
                skip |= {j for j in range(len(evs)) if where[j] and where[j][0] == i}
                if len(bad) >= 3:
                    break
            else:
                self.known_hits.append(hit)
                if ev["op"] == "crash":
                    skip |= {j for j in range(len(evs)) if where[j] and where[j][0] == i and j >= at}
                else:
                    skip.add(at)
        return bad

    def match_known(self, ev, session):
        for k in self.known:
            if all(ev.get(f) == v for f, v in k["match"].items()):
                return k["what"]
        return None

    def fail(self, what, detail, replay=None):
        """A violation found outside of a recorded session"""
        self.violations.append((None, 0, {"op": what}, detail if isinstance(detail, str) else json.dumps(detail, ensure_ascii=False), replay))


def write_replay(ctx, v):
    d = VERIF / "replay"
    d.mkdir(exist_ok=True)
    s, k, ev, msg = v[:4]
    body = {"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "event": ev, "disagreement": msg[-4000:]}
    if s is not None:
        body["commands"] = [c for c, _ in s.calls[:k + 1]]
        body["env"] = s.env
        body["text"] = conform.show(ev["t"]) if isinstance(ev.get("t"), list) and all(isinstance(x, int) for x in ev["t"]) else None
    if len(v) > 4 and v[4]:
        body["replay"] = v[4]
    t = json.dumps(body, indent=1, ensure_ascii=True)
    p = d / ("%s-%s.json" % (ctx.prop, hashlib.sha256(t.encode()).hexdigest()[:10]))
    p.write_text(t)
    return p


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        mod = importlib.import_module("c" + prop[1:])
        mod.check(ctx)
        level = getattr(mod, "LEVEL", "model_checking")
        cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
               "events_checked": ctx.events, "samples": ctx.samples[:6] or ["-"], "models": ctx.models, "notes": ctx.notes,
               "known_findings_hit": sorted(set(ctx.known_hits))}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1, ensure_ascii=True))
        for h in sorted(set(ctx.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (prop, h))
        if ctx.violations:
            for v in ctx.violations[:5]:
                p = write_replay(ctx, v)
                print("VIOLATION property=%s replay=%s" % (prop, p))
                ev = v[2]
                print("  " + json.dumps({k: (conform.show(x) if k == "t" and isinstance(x, list) and all(isinstance(y, int) for y in x) else x) for k, x in ev.items()}, ensure_ascii=True)[:600])
                print("  " + v[3][-1500:].replace("\n", "\n  "))
            code = 1
        else:
            print("property %s held: %d states, %d recorded histories with %d events, %.0f s" % (prop, ctx.states, ctx.traces, ctx.events, time.time() - t0))
            code = 0
    except (ModelError, vbuild.BuildError) as x:
        print("ERROR (no verdict): %s" % x)
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
