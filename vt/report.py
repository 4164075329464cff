"""Verdicts, known findings and evidence files."""
import json, os, sys, time, hashlib, traceback
from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.states = 0        # cases / states explored
        self.transitions = 0   # operations executed on the real code
        self.traces = 0        # executions of the real implementation compared with the model
        self.samples = []
        self.notes = {}
        self.viol = []         # (key, description, replay)
        self.known_hit = {}
        self.distinct = set()
        self.ndistinct = 0
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("{"):
                    k = json.loads(l)
                    if k["property"] == pid:
                        self.known.append(k)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, default=str)[:400])

    def mark(self, key):
        self.distinct.add(hash(key))

    def violation(self, key, desc, replay):
        """key: exact identity of the failing input / history (matched against known findings)"""
        for k in self.known:
            if key in k["keys"]:
                self.known_hit.setdefault(k["id"], []).append(key)
                return
        self.viol.append((key, desc, replay))

    def finish(self, rule, exhaustive=True, extra=None):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": {},
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        nd = max(len(self.distinct), self.ndistinct)
        cov = {"samples": self.samples or ["(none)"]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=max(self.transitions, self.states), distinct_nontrivial=nd, rule=rule)
        cov["exhaustive"] = bool(exhaustive)
        if self.level == "model_checking":
            cov["rule"] = rule
            cov["distinct_nontrivial"] = nd
            cov["evaluations"] = max(self.transitions, self.states)
        ev["coverage"] = cov
        ev["notes"] = dict(self.notes, **(extra or {}))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            if k["id"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            elif not k.get("optional"):
                # listed finding no longer reproduces: say so, not an alarm
                print(f"note: listed finding {k['id']} was not reached in this run")
        shown = 0
        for key, desc, replay in self.viol[:20]:
            h = hashlib.sha256(key.encode("utf8", "replace")).hexdigest()[:12]
            path = os.path.join(rdir, f"{self.pid}-{h}.txt")
            with open(path, "w") as f:
                f.write(f"property {self.pid}\nkey {key}\n{desc}\n--- replay ---\n{replay}\n")
            if shown < 8:
                print(f"VIOLATION property={self.pid} replay={path}")
                print("   " + desc[:600].replace("\n", "\n   "))
            shown += 1
        if os.environ.get("VT_ALL"):
            with open(os.environ["VT_ALL"], "w") as f:
                for key, desc, replay in self.viol:
                    f.write(json.dumps([key, desc]) + "\n")
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} traces={self.traces} violations={len(self.viol)} known={sum(map(len, self.known_hit.values()))} {time.time()-self.t0:.1f}s")
        sys.stdout.flush()
        os._exit(1 if self.viol else 0)
