"""Cases that log named values; the oracle is the table of expected values."""


class VCase:
    __slots__ = ("id", "cfg", "decl", "stm", "exp", "desc", "weight", "pre")

    def __init__(self, cid, cfg, decl, stm, exp, desc):
        self.id, self.cfg, self.decl, self.stm = cid, cfg, decl, stm
        self.exp = {k: str(v) for k, v in exp.items()}
        self.desc = desc

    def triple(self):
        return (self.id, self.decl, self.stm)


def hexs(b):
    return bytes(b).hex() or "-"


def run_vcases(h, cases, batch=12, pre="", stat="values observed", extra=(),
               keyfn=None):
    groups = {}
    for c in cases:
        groups.setdefault(c.cfg.name, []).append(c)
    cfgs = {c.cfg.name: c.cfg for c in cases}
    if not extra:
        h.precompile_all(cfgs.values())
    batches = []
    for name, cs in groups.items():
        for i in range(0, len(cs), batch):
            batches.append((cfgs[name], cs[i:i + batch]))

    def one(b):
        cfg, cs = b
        if len(h.violations) > 40:
            return b, {c.id: ("skip", "") for c in cs}
        return b, h.run_batch(cfg, [c.triple() for c in cs], pre, extra=extra)

    for (cfg, cs), obs in h.map(one, batches):
        for c in cs:
            judge(h, cfg, c, obs[c.id], pre, stat)


def judge(h, cfg, c, o, pre, stat):
    if o[0] == "skip":
        return
    src = lambda: h.tu([c.triple()], pre)
    h.count("programs in " + cfg.name)
    if o[0] == "nocompile":
        h.eval((c.desc, cfg.name))
        h.violation("the program does not compile: " + c.desc, cfg, src(),
                    str(c.exp)[:400], o[1][:1500])
        return
    if o[0] == "crash":
        h.eval((c.desc, cfg.name))
        h.violation("sanitizer report or abnormal exit: " + c.desc, cfg,
                    src(), "clean run", o[1][:1500])
        return
    got = {}
    for l in o[1]:
        if l[0] == "V":
            got[l[2]] = " ".join(l[3:])
    for k, v in c.exp.items():
        h.eval((c.desc, k, cfg.name))
        h.count(stat)
        if got.get(k) != v:
            h.violation("%s: %s" % (c.desc, k), cfg, src(), v,
                        got.get(k, "nothing logged"))
    if len(c.desc) < 300:
        h.sample({"config": cfg.name, "case": c.desc, "observed": {
            k: c.exp[k][:80] for k in list(c.exp)[:6]}})
