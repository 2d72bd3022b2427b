import sys
import pipeline as P
import matrix as X
P.driver()
P.rx_exe()
d = P.crate("wits", X.HEAD)
ok, errs, raw = P.check(d, "wits", [])
print("ready" if ok else raw[-2000:])
sys.exit(0 if ok else 1)
