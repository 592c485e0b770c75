"""What each property's check runs (see DESIGN.md)."""

COMMON_ASSUMPTIONS = [
    "float64 results are compared within a running error bound of a straightforward evaluation; elements whose exact value overflows or whose bound is unknown are skipped (counted)",
    "TLC 1.8, the Go compiler and the driver's term evaluator (harness/term.go) are trusted",
]
LEVELS = {}
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


CMP_BWD = "grad,gradnil,gradshape,err,bperr,panic,hang,shape"


def large(cx, group, cmp, back, drawn=6):
    """operations on large tensors, judged at sampled elements; gradients with moderate values only (elsewhere
    than at the sampled positions they are 0 unless an intermediate overflows)"""
    quick, thorough = (1, 1) if back else (3, 6)
    cx.gen("Gen_Large", dict(Group='"%s"' % group, NPos=12, NDrawn=drawn, Back=back), dict(NPos=30, NDrawn=10 * drawn), cmp, (quick, thorough), next_="NextL")


@check("C02")
def c02(cx):
    large(cx, "C02", CMP_BWD, True)
    cx.gen("Gen_Vjp", dict(Group='"C02"', NRandom=9000, NProg=0, ExFrom=2, MaxEl=30, Big=False),
           dict(NRandom=40000, ExFrom=1, MaxEl=60, Big=True), CMP_BWD, (4, 12))


@check("C07")
def c07(cx):
    large(cx, "C07", CMP_BWD, True)
    cx.gen("Gen_Vjp", dict(Group='"C07"', NRandom=8000, NProg=3000, ExFrom=2, MaxEl=30, Big=False),
           dict(NRandom=30000, NProg=10000, ExFrom=1, MaxEl=60), CMP_BWD, (3, 8))


CMP_FWD = "value,shape,err,panic,hang"


def fwd(cx, group, quick, thorough):
    large(cx, group, CMP_FWD, False, 25 if group == "C04" else 10)
    cx.gen("Gen_Fwd", dict(Group='"%s"' % group, Big=False, **quick), dict(Big=True, **thorough), CMP_FWD, (4, 10))


@check("C03")
def c03(cx):
    fwd(cx, "C03", dict(NRandom=5000, NProg=4000, ExFrom=1, MaxEl=40), dict(NRandom=20000, NProg=8000, ExFrom=1, MaxEl=60))


@check("C04")
def c04(cx):
    fwd(cx, "C04", dict(NRandom=5000, NProg=9000, ExFrom=1, MaxEl=40), dict(NRandom=15000, NProg=25000, ExFrom=1, MaxEl=60))


@check("C05")
def c05(cx):
    fwd(cx, "C05", dict(NRandom=6000, NProg=8000, ExFrom=1, MaxEl=40), dict(NRandom=15000, NProg=25000, ExFrom=1, MaxEl=60))


@check("C06")
def c06(cx):
    fwd(cx, "C06", dict(NRandom=6000, NProg=10000, ExFrom=1, MaxEl=40), dict(NRandom=15000, NProg=25000, ExFrom=1, MaxEl=60))


def walk(cx):
    """the walk of one back-propagation, link by link: every order of complete contexts and the
    depth-first one give the adjoints with one application per link; wrong walks are refuted"""
    import concurrent.futures as cf
    invs = ("EachLinkOnce", "Frame", "CompleteFirst", "Result", "AllDirty")
    run = lambda o, n, k, w, props=(): cx.tlc("BackwardWalk", dict(N=n, MaxIn=k, Order='"%s"' % o), invs=invs, props=props, workers=w)
    jobs = [lambda: run("abstract", 4, 2, 2), lambda: run("dfs", 4, 2, 2, ("Refines",))]
    if cx.tier == "thorough":
        jobs += [lambda: run("abstract", 5, 2, 4), lambda: run("dfs", 5, 2, 4, ("Refines",)),
                 lambda: run("abstract", 4, 3, 4), lambda: run("dfs", 4, 3, 4, ("Refines",))]
    for o, n in (("naive", 3), ("post", 3), ("once", 3), ("revisit", 3), ("untracked", 3), ("overwrite", 3), ("stop", 3), ("pre", 4), ("bfs", 4)):
        jobs.append(lambda o=o, n=n: must_refute(cx, "BackwardWalk", dict(N=n, MaxIn=2, Order='"%s"' % o), invs, "the %s walk" % o, workers=1))
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    cx.log("BackwardWalk checked, %d wrong walks refuted" % cx.counts.get("refuted_variants", 0))


@check("C01")
def c01(cx):
    consts = dict(NRandom=9000, MaxOps=14, NTiny=3, NWalk=4, Depths="{10, 20, 48}", Chains="{17, 40, 150, 4400}")
    if cx.tier == "thorough":
        consts = dict(NRandom=40000, MaxOps=18, NTiny=4, NWalk=4, Depths="{10, 20, 48, 90}", Chains="{17, 40, 150, 600, 9000}")
    consts.update(Seed=cx.seed, ScriptOf="<- GenScript")
    walk(cx)
    large(cx, "C01", CMP_BWD, True, 3)
    out, _, _ = cx.tlc("Gen_C01", consts, view="View", invs=("Inv",))
    s = cx.replay(out, "grad,gradnil,gradshape,bperr,panic,hang", cx.q(3, 6), extra=("-limit", "20s"))
    cx.log("%d behaviours, %d gradient elements, %d violations" % (s["Behaviours"], s["Grads"], s["Violations"]))
    if not cx.violations:
        w = cx.sub(["work", "-prop", "C01", "-seed", str(cx.seed), "-out", cx.replay_dir, out])
        for x in w["Samples"]:
            cx.samples.append(x)
        cx.counts["work_patterns_measured"] = w["Behaviours"]
        for p, m in zip(w["Replay"] or [], w["Messages"] or []):
            cx.violations.append((p, m))


def comp(cx, group, cmp, quick, thorough, vals, **kw):
    base = dict(Group='"%s"' % group, NProg=12, NAgain=400, MaxEl=24, ExFrom=1, Big=False)
    q = dict(base, **quick)
    cx.gen("Gen_Comp", q, dict(MaxEl=48, Big=True, NProg=60, NAgain=4000, **thorough), cmp, vals, **kw)


@check("C11")
def c11(cx):
    comp(cx, "C11", CMP_BWD + ",value,immut", dict(NRandom=3500), dict(NRandom=12000), (2, 5))


@check("C12")
def c12(cx):
    large(cx, "C12", CMP_FWD, False, 30)
    comp(cx, "C12", CMP_FWD, dict(NRandom=9000), dict(NRandom=20000), (6, 12))


@check("C13")
def c13(cx):
    large(cx, "C13", CMP_BWD, True, 25)
    comp(cx, "C13", CMP_BWD, dict(NRandom=9000), dict(NRandom=30000), (6, 12))


@check("C14")
def c14(cx):
    large(cx, "C14", CMP_FWD, False, 20)
    comp(cx, "C14", CMP_FWD, dict(NRandom=9000), dict(NRandom=20000), (5, 12))


@check("C15")
def c15(cx):
    large(cx, "C15", CMP_BWD, True, 15)
    comp(cx, "C15", CMP_BWD, dict(NRandom=7000), dict(NRandom=30000), (5, 12))


@check("C16")
def c16(cx):
    large(cx, "C16", CMP_BWD + ",value", True, 40)
    comp(cx, "C16", CMP_BWD + ",value,immut", dict(NRandom=7000), dict(NRandom=20000), (3, 8))


@check("C17")
def c17(cx):
    large(cx, "C17", CMP_BWD + ",value", True, 15)
    comp(cx, "C17", CMP_BWD + ",value,immut", dict(NRandom=9000), dict(NRandom=25000), (4, 8))


BOUND = ("Bounded: complete enumeration of small shapes/arguments plus seeded sampling of larger ones; every behaviour is generated by TLC from the "
         "specification and compared with the real library under several generic and adversarial valuations. Assumes the driver's term evaluator and error bounds.")
NOTES = {
    "C02": ("TLA+ heap specification; backward rules derived by term differentiation in TLA+; TLC-generated behaviours replayed into the library", BOUND),
}

TECH = "TLA+ specification (TLC) of the library as a heap machine; TLC-generated behaviours replayed into the library and compared: "
for _p, _t in {
    "C01": "adjoint equations of every back-propagation; complete enumeration of tiny graphs, seeded random graphs and deep ladders; backward work compared with the number of links",
    "C03": "element terms of unary functions, arithmetic, extrema and comparisons under right-aligned broadcasting, Equals",
    "C04": "element terms of MatMul, Dot and Transpose, with batches broadcast",
    "C05": "reductions per fibre and over the whole tensor",
    "C06": "layout laws of Slice/Patch/Concat/Reshape/UnSqueeze/Squeeze/Flatten/Broadcast/At/constructors as index maps",
    "C07": "gradients of implicitly and explicitly broadcast operands",
    "C11": "whole training loops (layers, activations, losses, SGD, resets)",
    "C12": "loss values with clipping",
    "C13": "loss gradients",
    "C14": "activation values, ranges and normalisation",
    "C15": "activation gradients, also in chains",
    "C16": "the FC layer's values, gradients and replaceable parameters",
    "C17": "the SGD update",
}.items():
    NOTES[_p] = (TECH + _t, BOUND)


@check("C08")
def c08(cx):
    consts = dict(Depth=4, FullDepth=2, NWalk=600, WalkLen=25, NTab=4, NTwice=2)
    if cx.tier == "thorough":
        consts = dict(Depth=5, FullDepth=3, NWalk=10000, WalkLen=60, NTab=12, NTwice=10)
    consts.update(Seed=cx.seed, ScriptOf="<- GenScript")
    out, _, _ = cx.tlc("Gen_C08", consts, init="InitH", next_="NextH", view="ViewH", invs=("InvH",), props=("TrackStep",))
    cx.log("TLC done")
    s = cx.replay(out, CMP_BWD + ",value,immut", cx.q(1, 2))
    cx.log("%d behaviours, %d gradient elements, %d violations" % (s["Behaviours"], s["Grads"], s["Violations"]))
    large(cx, "C08", CMP_BWD, True, 2)


NOTES["C08"] = (TECH + "the tracking state machine: every (abstract state, action) of bounded histories, every operation on operands of every status, long random histories", BOUND)


@check("C10")
def c10(cx):
    cmp = CMP_BWD + ",value,immut"
    t = cx.tier == "thorough"
    large(cx, "C10", cmp, True, 2)
    cx.gen("Gen_C10", dict(NRandom=7000, NProg=3000, NMulti=1500, ExFrom=2, MaxEl=16, Mut=1), dict(NRandom=40000, NProg=20000, NMulti=15000, ExFrom=1), cmp, (2, 4))
    consts = dict(NRandom=600, MaxOps=10, NTiny=0, NWalk=0, Depths="{}", Chains="{}", Mut=2)
    cx.gen("Gen_C01", consts, dict(NRandom=8000), cmp, (1, 2))
    for g, n in (("C11", 200), ("C16", 500), ("C17", 400)):
        comp(cx, g, cmp, dict(NRandom=n, Mut=2, ExFrom=3), dict(NRandom=10 * n), (1, 2))


NOTES["C10"] = (TECH + "every tensor, gradient and caller-owned slice is compared after every event, with all caller-owned slices overwritten between events", BOUND)


@check("C09")
def c09(cx):
    cx.gen("Gen_C09", dict(Den=1, NRandom=12000, NData=600), dict(Den=1, NRandom=20000, NData=1500), "shape,err,bperr,panic,hang", (1, 1), extra=("-limit", "60s"))


NOTES["C09"] = (TECH + "contract (accepted or not, result shape) of every public entry point for valid and invalid argument tuples", BOUND)


@check("C19")
def c19(cx):
    consts = dict(Depth1=3, Depth2=3, NRandom=2500, NSplit=2500, NBig=8)
    if cx.tier == "thorough":
        consts = dict(Depth1=4, Depth2=5, NRandom=20000, NSplit=20000, NBig=40)
    consts["Seed"] = cx.seed
    out, _, _ = cx.tlc("Gen_C19", consts, invs=("Inv",), props=("Frame",))
    s = cx.replay(out, "value,err,panic,hang", cx.q(3, 6))
    cx.log("%d histories, %d results, %d violations" % (s["Behaviours"], s["Elements"], s["Violations"]))
    for i in range(cx.q(3, 20)):
        cx.trace("Trace_C19", ["acctrace", "-seed", str(1000 * cx.seed + i), "-n", "400"], "history of accuracy metrics", invs=("Bounded",))


NOTES["C19"] = ("TLA+ specification (TLC) of the metric as a state machine; every history up to a bound and random long ones replayed into the library; histories recorded from the library accepted by a TLA+ trace specification", BOUND)


@check("C18")
def c18(cx):
    t = cx.tier == "thorough"
    consts = dict(Seed=cx.seed, NDrawn=cx.q(32, 80), NSmall=cx.q(10000, 40000), NLarge=cx.q(6000, 60000), NHuge=cx.q(40, 200))
    out, _, _ = cx.tlc("Gen_C18", dict(consts), invs=(), workers=1)
    cx.log("schedule generated")
    for rep in range(cx.q(1, 3)):
        cx.trace("Trace_C18", ["rndtrace", out], "history of random constructors and initializers", consts=dict(consts), view="V")
    cx.assumptions.append("the sampled distribution is judged by statistics with margins of 8 or more standard deviations; a deviation that stays inside them is not seen")


NOTES["C18"] = ("TLA+ specification (TLC) of every configuration's distribution and of an interleaved schedule of calls; the recorded history of the library's calls is judged by a TLA+ trace specification (shape, status and support of every result; accumulated statistics)", "Statistical with margins of 8 standard deviations; shape, tracked status and support are exact on everything drawn.")


def must_refute(cx, module, consts, invs, what, **kw):
    """a deliberately wrong variant of the specification: TLC has to find a violation"""
    _, ok, text = cx.tlc(module, consts, invs=invs, expect_violation=True, **kw)
    if ok or "is violated" not in text:
        raise cx.Error("the specification does not refute %s:\n%s" % (what, text[-2000:]))
    cx.counts["refuted_variants"] = cx.counts.get("refuted_variants", 0) + 1


@check("C20")
def c20(cx):
    import concurrent.futures as cf
    consts = dict(NRandom=cx.q(300, 4000), NTiny=cx.q(12, 100), Leak=False, Seed=cx.seed, ScriptOf="<- GenScript")
    out, _, _ = cx.tlc("Gen_C20", dict(consts), view="View", invs=("Inv2",))
    must_refute(cx, "Gen_C20", dict(consts, Leak=True, NRandom=10), ("Inv2",), "back-propagation through shared tracked tensors")
    acc = dict(NG=2, NOps=2, Few=cx.tier != "thorough")
    invs = ("NoRace", "Deterministic", "SharedIntact")
    cx.tlc("ConcAccess", dict(acc, Bug='"none"'), invs=invs)
    for bug in ("scratch", "memo", "count", "touch", "leak"):
        must_refute(cx, "ConcAccess", dict(acc, Bug='"%s"' % bug), invs, bug)
    must_refute(cx, "ConcAccess", dict(acc, Bug='"scratch"'), ("Deterministic",), "scratch")
    cx.log("TLC done (%d states)" % cx.states)
    s = cx.replay(out, CMP_BWD + ",value,immut", cx.q(2, 4))
    cx.log("%d interleavings replayed one request at a time, %d violations" % (s["Behaviours"], s["Violations"]))
    race = cx.build(race=True)
    of = 4
    conc = lambda i: cx.conc(race, out, i, of, cx.q(40, 900), 250)
    with cf.ThreadPoolExecutor(of) as ex:
        for s in ex.map(conc, range(of)):
            if s:
                cx.absorb(s)
                cx.counts["concurrent_runs"] = cx.counts.get("concurrent_runs", 0) + s["Runs"]
    cx.log("%d concurrent runs under the race detector" % cx.counts.get("concurrent_runs", 0))
    if not cx.violations:
        # the same operations on large tensors
        for back in (False, True):
            big, _, _ = cx.tlc("Gen_Large", dict(Seed=cx.seed, Group='"C20"', NPos=6, NDrawn=cx.q(1, 8), Back=back, ScriptOf="<- GenScript"), next_="NextL")
            conc = lambda i: cx.conc(race, big, i, of, cx.q(5, 120), 240 + back)
            with cf.ThreadPoolExecutor(of) as ex:
                for s in ex.map(conc, range(of)):
                    if s:
                        cx.absorb(s)
                        cx.counts["concurrent_runs_large"] = cx.counts.get("concurrent_runs_large", 0) + s["Runs"]
            cx.log("large tensors, back-propagation %s: %d concurrent runs" % (back, cx.counts.get("concurrent_runs_large", 0)))
    if not cx.violations:
        # without the detector: more overlap; every other round repeats what can be repeated
        conc = lambda i: cx.conc(cx.harness, out, i, 2, cx.q(25, 300), 0, hammer=30)
        with cf.ThreadPoolExecutor(2) as ex:
            for s in ex.map(conc, range(2)):
                if s:
                    cx.absorb(s)
                    cx.counts["concurrent_runs_undetected"] = cx.counts.get("concurrent_runs_undetected", 0) + s["Runs"]
    if not cx.violations:
        consts = dict(Seed=cx.seed, NDrawn=cx.q(16, 60), NSmall=cx.q(4000, 20000), NLarge=cx.q(3000, 20000), NHuge=cx.q(20, 60))
        out, _, _ = cx.tlc("Gen_C18", dict(consts), invs=(), workers=1)
        cx.trace("Trace_C18", ["rndtrace", "-par", "8", out], "concurrent calls of random constructors", consts=dict(consts), view="V", exe=race, guard=True)
        cx.log("random constructors called concurrently")
    cx.assumptions.append("the race detector sees the accesses of the executed schedules; a race needs two goroutines to make the conflicting accesses in one of the generated programs")


NOTES["C20"] = ("TLA+ specification (TLC): concurrent programs over shared tensors, confluence of all interleavings, absence of conflicting accesses in an access-level model; "
                "TLC-generated programs executed by real goroutines under the race detector and judged against the specification and the sequential execution",
                "Bounded: seeded programs of 2-6 goroutines; schedules are those the Go scheduler and random yields produce; races are reported by happens-before analysis of each run.")
