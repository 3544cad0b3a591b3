import os
from vlib import corrupt


def run(c):
    c.model("ConcBox", "ConcBox_ok.cfg", min_states=50000,
            actions=["Lookup", "Register", "ReadCase", "WriteCase", "TallyRead", "TallyName"])
    c.model_fails("ConcBox", "ConcBox_noreg.cfg", "RegExclusive")
    c.model_fails("ConcBox", "ConcBox_nocase.cfg", "NothingLost")
    if c.thorough:
        c.model("ConcBox", "ConcBox_big.cfg", min_states=10**6)
    tr = c.drive("conc")
    # RegExclusive and CaseExclusive on the code: two unsynchronised accesses are what the race detector reports
    tr2 = c.drive("conc", ["-small"], out=os.path.join(c.work, "race.ndjson"), race=True,
                  env={"GORACE": "halt_on_error=1 exitcode=66"})
    for t in tr2:
        t["id"] = "race-" + t["id"]
    tr += tr2
    lin = [t for t in tr if t["what"] == "lin"]
    bal = [t for t in tr if t["what"] == "ballot"]
    cnt = [t for t in tr if t["what"] == "counter"]

    def tally(t):
        o = [o for o in t["ops"] if o["op"] == "tally" and o["got"] != "NA"][0]
        o["got"] = "98765"

    def count(t):
        e = t["ev"][-1]
        if e["op"] != "read":
            return False
        e["count"] = str(int(e["count"]) - 1)

    def lost(t):
        e = t["ev"][-1]["rows"][0]
        e[2] -= 1

    def lostvote(t):
        e = [e for e in t["ev"] if e["op"] == "votes" and t["kind"] == "num"][0]
        e["times"] = str(int(e["times"]) - 1)
    c.validate("LinTrace", lin, negatives=corrupt(lin, tally, "tally"))
    c.validate("BallotTrace", bal, negatives=corrupt(bal, count, "count") + corrupt(bal, lostvote, "lostvote"))
    c.validate("CounterTrace", cnt, negatives=corrupt(cnt, lost, "lost"))
    c.coverage["rule"] = "all interleavings of 2 threads (3 in thorough) in the model; 2-3 goroutine histories checked for linearisability; 8 goroutines with nearly cancelling votes; the same under the race detector"
