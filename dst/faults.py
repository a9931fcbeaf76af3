"""Seeded fault plans for one operation."""


def gen_fault(rng, est, kinds):
    """One fault at an event of the coming operation. `est` is a rough number of events it makes."""
    u = rng.random()
    if u < 0.5:
        at = rng.randrange(max(1, est))
    elif u < 0.8:
        at = rng.randrange(6)
    else:
        at = rng.randrange(max(6, 3 * est))
    k = rng.choice(kinds)
    f = {"at": at, "kind": k}
    if k == "crash":
        f["when"] = rng.choice(["before", "after", "torn", "torn"])
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
        if rng.random() < 0.4:
            f["power"] = rng.choice([0.0, 0.0, 0.5, 0.97])
    elif k == "stat":
        f["at"] = rng.choice([0, 0, 1, 1, 2, 3, 5, 8])
        f["errno"] = rng.choice(["EIO", "ESTALE", "EACCES"])
    elif k == "full":
        f["frac"] = rng.choice([0.0, 0.3, 0.9])
    else:
        f["errno"] = rng.choice(["EIO", "ENOSPC", "EMFILE", "EACCES"])
        f["frac"] = rng.choice([0.0, 0.5])
    return f
