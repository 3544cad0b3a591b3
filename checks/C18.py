import boostruns


def run(c):
    c.model("GradMC", "GradMCBig.cfg" if c.thorough else "GradMC.cfg", min_states=20000, actions=["Round"], timeout=3000)
    for v in ("shared", "nointercept", "noweight", "bagonly"):
        c.model_fails("GradMC", "GradMC_%s.cfg" % v, "Untouched" if v == "shared" else "Keeps")
    boostruns.check(c, ("grad", "gradclass"), "C18")
