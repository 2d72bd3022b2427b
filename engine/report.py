"""Verdicts: known findings, VIOLATION lines, replay files and evidence."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.assume = []
        self.undecided = []
        self.notes = []

    def violation(self, key, text):
        """key identifies the place or the input, without line numbers"""
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, text))

    def known(self):
        out = []
        p = os.path.join(ROOT, "known_findings.txt")
        for l in open(p, encoding="utf8"):
            l = l.strip()
            if l.startswith("finding: property=%s " % self.pid):
                out.append(l[len("finding: property=%s " % self.pid):].split(" ## ")[0].strip())
        return out

    def finish(self):
        known = self.known()
        rest = []
        for k, t in self.viol:
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {k}")
            else:
                rest.append((k, t))
        d = os.path.join(ROOT, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.pid + ".txt")
        with open(rp, "w", encoding="utf8", errors="replace") as f:
            f.write(f"property {self.pid}: {len(rest)} violation(s)\n\n")
            for k, t in rest[:200]:
                f.write(f"== {k}\n{t}\n\n")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        if self.undecided:
            cov["undecided"] = len(self.undecided)
            cov["undecided_samples"] = self.undecided[:8]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(rest))
        s = json.dumps(ev, ensure_ascii=False, indent=1)
        while len(s.encode()) > 60000:
            for k in ("samples", "undecided_samples"):
                if cov.get(k):
                    cov[k] = cov[k][:len(cov[k]) // 2]
            s2 = json.dumps(ev, ensure_ascii=False, indent=1)
            if s2 == s:
                break
            s = s2
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w", encoding="utf8", errors="replace") as f:
            f.write(s + "\n")
        for k, t in rest[:12]:
            print(f"-- {k}\n   " + t.replace("\n", "\n   ")[:1200])
        if len(rest) > 12:
            print(f"-- and {len(rest) - 12} more, see the replay file")
        if rest:
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool))))
        return 0
