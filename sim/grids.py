"""Definitions of the classic cellular automata on explicit grids of cells, written from NKS and the rules' own literature:
which cells a cell sees, and what it does about them."""


def ring(n, r):
    """cell -> the 2r+1 cells it sees, from left to right."""
    return {c: [(c + d) % n for d in range(-r, r + 1)] for c in range(n)}


HEX_EVEN = [(-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, 0), (1, 1)]      # rows 0, 2, ... are shoved to the right
HEX_ODD = [(-1, -1), (-1, 0), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0)]


def torus(rows, cols, neighbourhood, r=1):
    """cell -> the set of cells it sees (itself included) on a grid whose edges are glued."""
    out = {}
    for a in range(rows):
        for b in range(cols):
            if neighbourhood == "Moore":
                ds = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)]
            elif neighbourhood == "von Neumann":
                ds = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1) if abs(x) + abs(y) <= r]
            else:
                ds = HEX_ODD if a % 2 else HEX_EVEN
            out[a * cols + b] = sorted({((a + x) % rows) * cols + (b + y) % cols for x, y in ds})
    return out


def binary(rule, nks):
    """Bit number i of the rule is the outcome for the neighbourhood that reads i as a binary number (NKS); without the NKS
    convention the neighbourhoods are listed in lexicographic order, so that the first outcome is the highest bit."""
    def step(seen, me):
        i = int("".join(str(int(x)) for x in seen), 2)
        return (rule >> i) & 1 if nks else (rule >> ((1 << len(seen)) - 1 - i)) & 1
    return step


def totalistic(k, rule):
    """Digit number s (base k, from the right) is the outcome for a neighbourhood that sums to s."""
    def step(seen, me):
        return rule // k ** sum(seen) % k
    return step


def life(seen, me):
    living = sum(seen) - me
    return 1 if living == 3 or (me == 1 and living == 2) else 0


def wireworld(seen, me):
    if me in (0, 1, 2):
        return {0: 0, 1: 2, 2: 3}[me]
    return 1 if seen.count(1) in (1, 2) else 3
