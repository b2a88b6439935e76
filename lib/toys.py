"""Toy mechanisms: kept as plain data (the oracles work on them) and as YAML files."""
import os

R = 8.31446261815324
ATM = 101325.0


def rxn(eq, k, **kw):
    """A reaction of a toy: equation, rate constant, further YAML entries."""
    return {"eq": eq, "k": k, **kw}


def toy(species, reactions, name="gas", cp=25.0, h=None, extra_species_yaml=None):
    return {"species": list(species), "reactions": list(reactions), "name": name, "cp": cp, "h": h or {}}


def yaml_text(t):
    lines = ["units: {length: cm, time: s, quantity: mol, activation-energy: cal/mol}", "phases:"]
    for name in [t["name"]] + t.get("more_phases", []):
        sp = t["species"] if name == t["name"] else t["species"][: t.get("second_phase_species", 2)]
        lines += [
            f"- name: {name}",
            "  thermo: ideal-gas",
            "  elements: [H]",
            f"  species: [{', '.join(sp)}]",
            "  kinetics: gas",
            "  reactions: " + ("declared-species" if t["reactions"] else "none"),
            f"  state: {{T: {t.get('T', 1000.0)}, P: {t.get('P', 1.0)} atm}}",
        ]
    lines = [l for l in lines if l]
    lines.append("species:")
    for s in t["species"]:
        n = t.get("atoms", {}).get(s, 1)
        lines += [
            f"- name: {s}",
            f"  composition: {{H: {n}}}",
            "  thermo:",
            "    model: constant-cp",
            "    T0: 298.15 K",
            f"    h0: {t['h'].get(s, 0.0)} cal/mol",
            "    s0: 10.0 cal/mol/K",
            f"    cp0: {t['cp'] * n} J/mol/K",
        ]
    lines.append("reactions:" + ("" if t["reactions"] else " []"))
    for r in t["reactions"]:
        lines.append(f"- equation: {r['eq']}")
        if "k" in r:
            lines.append(f"  rate-constant: {{A: {r['k']}, b: 0, Ea: {r.get('Ea', 0.0)}}}")
        for k, v in r.items():
            if k not in ("eq", "k", "Ea"):
                lines.append(f"  {k}: {v}")
    return "\n".join(lines) + "\n"


def write(t, path):
    with open(path, "w") as f:
        f.write(yaml_text(t))
    return path


# ------------------------------------------------ mechanisms for the drivers
def star(coefs, targets=("T",), filler="M"):
    """T consumed by one reaction per species: coefficient T -> sp is (about) coefs[sp];
    a filler takes the rest."""
    rest = 1.0 - sum(coefs.values())
    species = list(targets) + list(coefs) + [filler]
    reactions = [rxn(f"{targets[0]} => {s}", c) for s, c in coefs.items()]
    reactions.append(rxn(f"{targets[0]} => {filler}", rest))
    return toy(species, reactions)


def chain(coefs, target="T"):
    """T => A => B ...; the coefficient of a link is coefs[i], the rest of the flux
    of a species returns to its predecessor (or a filler for the target)."""
    names = list(coefs)
    species = [target] + names + ["M"]
    reactions = []
    prev = target
    for s in names:
        c = coefs[s]
        reactions.append(rxn(f"{prev} => {s}", c))
        reactions.append(rxn(f"{prev} => M", 1.0 - c))
        prev = s
    return toy(species, reactions)
