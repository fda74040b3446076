from .. import contracts, locks


def run(c):
    c.rule("lockset: in every operation of a mailbox each access to its shared data happens while its mutex is held, all the data of one "
           "operation are handled in one critical section, locks taken by hand are released on every path, the lock is not taken twice, no "
           "reference to the data escapes; what is written and delivered is compared with spec/p10.cpp")
    P = c.P
    seen = set()
    n = 0
    for F in sorted(P.records):
        if not F.startswith("dynamicgraph::sot::Mailbox<"):
            continue

        def rep(kind, f, l, txt):
            key = "%s: %s" % (f["qs"].replace("dynamicgraph::sot::", ""), kind)
            if key not in seen:
                seen.add(key)
                c.fail(key, "%s:%d" % (f["rel"], l), "%s: %s" % (f["q"], txt))
        before = c.counts.get("accesses to guarded data", 0)
        g = locks.check_class(P, F, rep, c.count)
        if g is None:
            c.fail("Mailbox has no mutex", P.records[F]["rel"], "%s has no single mutex to guard its data" % F)
            continue
        n += 1
        for _ in range(c.counts.get("accesses to guarded data", 0) - before):
            c.ok()
        c.sample({"class": F, "guarded": g})
    c.floor("mailbox classes", n, 1)
    c.floor("accesses to guarded data", c.counts.get("accesses to guarded data", 0), 4)
    c.floor("operations", c.counts.get("operations", 0), 5)
    contracts.run(c, ["p10"], floor=4)
