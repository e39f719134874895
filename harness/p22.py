"""P22 - the conversation about states and orbitals.  Specification: spec/Dialogue.tla, DialogueOps.tla"""
import builtins
import contextlib
import io
import os
import random
import re
import types

from .core import Raised

INVS = ["OnlyConfirmed", "NeverNothing", "EndsWithYes"]
YES, NO = ["y", "Y", "yes", "Yes", "YES", " y "], ["n", "N", "no", "NO", "", "nope"]
SUGGESTED = -7


def output(energies, rng, usable=True):
    """the output of a Hartree-Fock calculation with these energies (units of 1/8 eV)"""
    pad = lambda: "".join(f"  some line {rng.randint(0, 99)}\n" for _ in range(rng.randint(1, 6)))
    rows = []
    for i, e in enumerate(energies):
        ev = f"{e / 8:19.10f}" if usable or i != len(energies) // 2 else "*" * 19
        rows.append(f"  {i + 1:5d}  {rng.randint(1, 99):5d}  {e / 8 / 27.2113957:19.10f}  {ev}  A{i % 2 + 1}  A{i % 2 + 1} ({i % 2 + 1})\n")
    return (pad() + "  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 EV)\n\n     MO #        E(hartree)               E(eV)           FULLSYM    COMPSYM\n"
            "     ----   --------------------   --------------------   -------   ---------\n" + "".join(rows)
            + "  +++++++++++++++++++++++++++++++++++++++++++\n" + f"     99     98    0.1234567890    {3.359:19.10f}  A1  A1 (1)\n" + pad())


def levels(rng, n):
    """a list of energies, from the lowest"""
    e = sorted((rng.choice([rng.randint(50, 300), rng.randint(300, 4000), rng.randint(1500, 8000)]) for _ in range(n)), reverse=True)
    if rng.random() < 0.3:      # equal ratios
        e = [2 ** (9 - i) * 40 for i in range(10)] if n >= 10 else [2 ** (n - i) * 60 for i in range(n)]
    if len(e) > 4 and rng.random() < 0.2:      # the order of the output counts, whatever it is
        i = rng.randrange(len(e) - 1)
        e[i], e[i + 1] = e[i + 1], e[i]
    return [-x for x in e]


def converse(ctx, es, kind, energies, usable, script, drop, rng):
    dropped = "" if drop == 0 else "DROPMO=1" if drop == 1 else f"DROPMO=1-{drop}"
    d = ctx.newdir("talk")
    with open(os.path.join(d, "m.out0"), "w") as fh:
        fh.write(output(energies, rng, usable))
    obj = types.SimpleNamespace(path_root=d, name="m", file_out={"NIP": "m.out0", "DROPMO": "m.out0"}, parameter_dictionary={"DROPMO": dropped})
    replies = [rng.choice(YES) if s["reply"] == "yes" else rng.choice(NO) if s["reply"] == "no" else (rng.choice(["{}", " {} ", "0{}"]).format(s["reply"]) if s["ask"] == "number" and s["reply"].isdigit() else s["reply"])
               for s in script]
    used, more, shown = [0], [0], []

    def answer(prompt=""):
        if used[0] >= len(replies):
            more[0] = 1
            raise EOFError("no more replies")
        shown.append([int(x) for x in re.findall(r"(?<![\w.])\d+(?![\w.])", str(prompt))])
        used[0] += 1
        return replies[used[0] - 1]
    screen = io.StringIO()
    old = builtins.input
    builtins.input = answer
    try:
        with contextlib.redirect_stdout(screen):
            if kind == "states":
                out = ctx.call(es.parse_hartree_fock_output, obj, es.State.NIP, timeout=20, quiet=False)
                out = out if isinstance(out, Raised) else obj.parameter_dictionary.get("nip")
            else:
                out = ctx.call(es._estimate_dropmo, os.path.join(d, "m.out0"), timeout=20, quiet=False)
    finally:
        builtins.input = old
        ctx.rmdir(d)
    text, result = "", -2
    if kind == "orbitals" and isinstance(out, str):
        text = out
        result = 0 if out == "" else int(re.findall(r"\d+", out)[-1]) if re.search(r"\d", out) else -2
    elif kind == "states" and isinstance(out, int) and not isinstance(out, bool):
        result = out
    unchanged = obj.parameter_dictionary["DROPMO"] == dropped
    listed = [round(float(x) * 8) for x in re.findall(r"^\s*(-\d+\.\d+(?:e[-+]?\d+)?)\s*$", screen.getvalue(), re.M)]
    return {"kind": kind, "energies": energies, "usable": int(usable), "drop": drop, "script": script, "used": used[0], "more": more[0], "shown": shown + [[]] * (len(script) - len(shown)),
            "result": result, "text": text, "listed": listed}, out, unchanged


def run(ctx):
    from pibronic.vibronic import electronic_structure as es
    rng = random.Random(ctx.seed * 7919 + 22)
    base = dict(Numbers="{0, 1, 2, 12}", Bad='{"-1", "x", "", "2.5"}', Suggestion="-7", TakeUnconfirmed="FALSE")
    short = ctx.tlc("Dialogue", dict(base, MaxReplies=4 if not ctx.thorough else 5), spec="Spec", invariants=INVS + ["Emit"], label="conversations, exhaustive")
    ctx.tlc("Dialogue", dict(base, MaxReplies=3, TakeUnconfirmed="TRUE"), spec="Spec", invariants=INVS, expect_violation=True, label="numbers taken without confirmation (must fail)")
    assert not ctx.last_tlc_ok
    long = ctx.tlc("Dialogue", dict(base, MaxReplies=14), spec="Spec", invariants=INVS + ["Emit"], simulate=400 if not ctx.thorough else 4000, depth=16, workers=1, label="long conversations")
    kinds = ["states"] + (["orbitals"] if hasattr(es, "_estimate_dropmo") else [])
    if len(kinds) == 1:
        ctx.assumptions.append("the estimate of the orbitals to leave out was not found")
    # many numbers are declined, in both conversations
    stubborn = ctx.tlc("Dialogue", dict(base, Numbers="{3}", Bad='{}', MaxReplies=18 if not ctx.thorough else 24), spec="Spec", invariants=INVS + ["Emit"], label="numbers declined many times, exhaustive")
    talks = short + [t for t in stubborn for _ in kinds] + ctx.thin(long, 150 if not ctx.thorough else 1500)
    # suggestions that are confirmed right away: many lists of energies
    plain = [t for t in talks if len(t["hist"]) == 2 and t["hist"][0]["suggested"]]
    talks += plain * (150 if not ctx.thorough else 3000)
    recs, meta = [], []
    for k, t in enumerate(talks):
        suggested, script = t["hist"][0]["suggested"], t["hist"][1:]
        kind = kinds[k % len(kinds)]
        n = rng.choice([2, 3, 4, 5, 8, 12, 14, 25])
        drop = rng.choice([0, 0, 1, 2, 4, 11, 12, 20]) if kind == "states" else 0
        if kind == "states":
            n = max(n, drop + 3)
        energies, usable = levels(rng, n), True
        drop = drop if len(energies) > drop + 2 else 0
        if not suggested:
            how = rng.choice(["unusable", "one"])
            energies, usable = (energies[:1], True) if how == "one" else (energies, False)
        seed = rng.randint(0, 10 ** 9)
        case = {"kind": kind, "energies": energies, "usable": usable, "script": script, "dropped": drop, "seed": seed}
        if not ctx.want(case):
            continue
        rec, out, unchanged = converse(ctx, es, kind, energies, usable, script, drop, random.Random(seed))
        ctx.check(unchanged, "the other choice stays as it was", case, outcome=repr(out))
        recs.append(rec)
        meta.append((case, repr(out)))
        ctx.count(f"conversation about {kind}, {'with' if suggested else 'without'} suggestion", case)
    for i, clause in ctx.judge("DialogueOps", recs, "VerdictDialogue").items():
        ctx.check(False, clause, meta[i][0], observed=recs[i], outcome=meta[i][1])
    # an output without the list of energies
    for kind in kinds:
        case = {"kind": kind, "no list": True}
        if ctx.want(case):
            d = ctx.newdir("talk")
            with open(os.path.join(d, "m.out0"), "w") as fh:
                fh.write("nothing\n" * 30)
            obj = types.SimpleNamespace(path_root=d, name="m", file_out={"NIP": "m.out0"}, parameter_dictionary={"DROPMO": ""})
            out = ctx.call(es.parse_hartree_fock_output, obj, es.State.NIP, timeout=20) if kind == "states" else ctx.call(es._estimate_dropmo, os.path.join(d, "m.out0"), timeout=20)
            ctx.check(isinstance(out, Raised) and "nip" not in obj.parameter_dictionary, "an output without energies is reported", case, outcome=repr(out))
            ctx.count("no list of energies", case)
    return {"conversations": len(recs)}
