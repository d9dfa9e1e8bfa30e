"""Histories for the intrusive list checks, with a shadow of both lists and of the links."""


def histories(rng, kinds, pols, mode, per, length, bad):
    """bad: also try to add nodes that carry links (checked lists only)."""
    out = []
    for kind in kinds:
        for pol in pols:
            for h in range(per):
                n = 40 if h % 10 == 9 else rng.choice([1, 2, 3, 5, 8])
                out.append(("new", [kind, pol, mode, n]))
                l = {1: [], 2: []}
                dirty = {k: 0 for k in range(1, n + 1)}
                swarm = rng.sample(["pushf", "pushb", "popf", "popb", "ins", "rm", "clear"], rng.randint(5, 7))
                for _ in range(length if n < 40 else 2 * length):
                    j = rng.choice([1, 1, 2])
                    outside = [k for k in dirty if k not in l[1] and k not in l[2]]
                    clean = [k for k in outside if pol == 1 or not dirty[k]]
                    c = []
                    if outside and (pol == 1 or bad) and rng.random() < .35:
                        k = rng.choice(outside)
                        nx = rng.choice([0, rng.randint(0, n)])
                        pv = 0 if kind == 1 else rng.choice([0, rng.randint(0, n)])
                        if pol == 0 and rng.random() < .5:
                            nx = pv = 0
                        dirty[k] = nx or pv
                        out.append(("dirty", [k, nx, pv]))
                        continue
                    if bad and pol == 0 and rng.random() < .25:
                        cand = [k for k in outside if dirty[k]]
                        for w in (1, 2):
                            if len(l[w]) > 1:
                                # the last node of a singly-linked list carries no link
                                cand += l[w] if kind == 0 else l[w][:-1]
                        if cand:
                            k = rng.choice(cand)
                            ops = [("pushf", [j, k]), ("pushb", [j, k])]
                            if kind == 0:
                                ops += 2 * [("ins", [j, rng.randint(0, len(l[j])), k])]
                            out.append(rng.choice(ops))
                            continue
                    if clean:
                        k = rng.choice(clean)
                        c += 2 * [("pushf", [j, k]), ("pushb", [j, k])]
                        if kind == 0:
                            c += 3 * [("ins", [j, rng.choice([0, len(l[j]), rng.randint(0, len(l[j]))]), k])]
                    if l[j]:
                        c += [("popf", [j])]
                        if kind == 0:
                            c += [("popb", [j]), ("rm", [j, rng.choice(l[j])]), ("rm", [j, rng.choice(l[j])])]
                    if rng.random() < (.15 if n < 40 else .02):
                        c += [("clear", [j])]
                    c = [x for x in c if x[0] in swarm] or c
                    if not c:
                        continue
                    op, a = rng.choice(c)
                    s = l[j]
                    gone = []
                    if op == "pushf":
                        s.insert(0, a[1])
                    elif op == "pushb":
                        s.append(a[1])
                    elif op == "ins":
                        s.insert(a[1], a[2])
                    elif op == "popf":
                        gone = [s.pop(0)]
                    elif op == "popb":
                        gone = [s.pop()]
                    elif op == "rm":
                        s.remove(a[1])
                        gone = [a[1]]
                    elif op == "clear":
                        gone, l[j] = s, []
                    for k in gone:
                        dirty[k] = 0
                    out.append((op, a))
    return out
