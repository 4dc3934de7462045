"""Texts of VASP files, written here independently of the readers under test."""
import numpy as np
SYM = {1: "H", 3: "Li", 6: "C", 7: "N", 8: "O", 11: "Na", 12: "Mg", 13: "Al", 14: "Si", 16: "S", 17: "Cl", 20: "Ca", 22: "Ti", 26: "Fe", 30: "Zn", 31: "Ga", 38: "Sr", 40: "Zr", 47: "Ag", 50: "Sn", 53: "I", 55: "Cs", 56: "Ba", 57: "La", 118: "Og", 79: "Au", 82: "Pb"}


def groups(z):
    """[(number, count)] of the contiguous runs of equal atomic numbers."""
    out = []
    for k in z:
        if out and out[-1][0] == k: out[-1][1] += 1
        else: out.append([k, 1])
    return [tuple(g) for g in out]


def symbol(k): return SYM[k]


def row(v, f="%16.9f"): return " ".join(f % x for x in v)


def outcar_text(L, z, x=None, tensor=None, phonons=None, md=None, timestep=None, variant=""):
    """phonons: [(wavenumber, (N,3) eigenvector)]; md: list of Cartesian positions, entries (kind, (N,3)) with kind "dft" or "ml"."""
    g = groups(z); out = [" vasp.6.4.2 20Jul23 (build) complex", ""]
    for k, _ in g: out.append(f" POTCAR:    PAW_PBE {symbol(k)}{variant} 07Sep2000")
    if len({k for k, _ in g}) == len(g): out.append(f" POTCAR:    PAW_PBE {symbol(g[0][0])}{variant} 07Sep2000")
    out += ["   VRHFIN =" + symbol(g[0][0]) + ": s p", "   LEXCH  = PE"]
    out += ["   ions per type =        " + "".join("%6d" % c for _, c in g), ""]
    if timestep is not None: out.append("   POTIM  = %7.4f    time-step for ionic-motion" % timestep)
    out += [" Write flags", "   LWAVE  =      F    write WAVECAR", ""]
    iL = np.linalg.inv(L).T
    out += ["      direct lattice vectors                 reciprocal lattice vectors"] + ["   " + row(a, "%14.9f") + "  " + row(b, "%14.9f") for a, b in zip(L, iL)] + [""]
    if x is not None:
        out += [" position of ions in fractional coordinates (direct lattice) "] + ["   " + row(a, "%13.9f") for a in x] + [""]
        out += [" position of ions in cartesian coordinates  (Angst):"] + ["   " + row(a @ L, "%14.9f") for a in x] + [""]
    if tensor is not None:
        out += [" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)", " " + "-" * 54] + ["   " + row(a, "%14.6f") for a in tensor] + [" " + "-" * 54, ""]
    if phonons is not None:
        out += [" Eigenvectors and eigenvalues of the dynamical matrix", " " + "-" * 52, " ", " "]
        pos = (np.zeros((len(z), 3)) if x is None else x) @ L
        for i, (w, e) in enumerate(phonons):
            t = abs(w) * 0.0299792458
            lab = "f/i=" if w < 0 else "f  ="
            out += ["%4d %s %12.6f THz %12.6f 2PiTHz %11.6f cm-1 %12.6f meV" % (i + 1, lab, t, t * 2 * np.pi, abs(w), t * 4.135667696),
                    "             X         Y         Z           dx          dy          dz"]
            out += ["   " + row(a, "%10.6f") + "   " + row(b, "%11.6f") for a, b in zip(pos, e)] + [" "]
    for kind, c in (md or []):
        if kind == "dft": out += [" POSITION                                       TOTAL-FORCE (eV/Angst)"]
        else: out += ["  POSITION                                       TOTAL-FORCE (eV/Angst) (ML)"]
        out += [" " + "-" * 83] + ["   " + row(a, "%11.5f") + "   " + row(a * 0, "%13.6f") for a in c] + [" " + "-" * 83, ""]
    return "\n".join(out) + "\n"


def poscar_text(L, z, x, label="made here", scale="1.0", mode="Direct", names=True, selective=False):
    g = groups(z)
    out = [label, "   " + scale] + ["  " + row(a, "%22.16f") for a in L] + ["  " + "  ".join(symbol(k) for k, _ in g), "  " + "  ".join(str(c) for _, c in g)]
    if selective: out.append("Selective dynamics")
    out += [mode] + ["  " + row(a, "%20.16f") + (" T T F" if selective else "") for a in x]
    return "\n".join(out) + "\n"


def xdatcar_text(L, z, xs, label="made here"):
    g = groups(z)
    out = [label, "   1.0"] + ["  " + row(a, "%22.16f") for a in L] + ["  " + "  ".join(symbol(k) for k, _ in g), "  " + "  ".join(str(c) for _, c in g)]
    for i, x in enumerate(xs): out += ["Direct configuration=%6d" % (i + 1)] + ["  " + row(a, "%20.16f") for a in x]
    return "\n".join(out) + "\n"


def vasprun_text(L, z, x, tensor=None, phonons=None, md=None, timestep=None):
    """phonons: (eigenvalues (3N,), eigenvectors (3N, 3N)); md: list of fractional positions."""
    v = lambda a: "    <v> " + row(a, "%18.12f") + " </v>"
    st = lambda q, nm="": [f" <structure{nm}>", "  <crystal>", '   <varray name="basis" >'] + [v(a) for a in L] + ["   </varray>", '   <i name="volume"> %f </i>' % np.linalg.det(L), '   <varray name="rec_basis" >'] + [v(a) for a in np.linalg.inv(L).T] + ["   </varray>", "  </crystal>", '  <varray name="positions" >'] + [v(a) for a in q] + ["  </varray>", " </structure>"]
    out = ['<?xml version="1.0" encoding="ISO-8859-1"?>', "<modeling>", " <atominfo>", f"  <atoms> {len(z)} </atoms>", f"  <types> {len(groups(z))} </types>", '  <array name="atoms" >',
           '   <dimension dim="1">ion</dimension>', '   <field type="string">element</field>', '   <field type="int">atomtype</field>', "   <set>"]
    out += [f"    <rc><c>{symbol(k):2s}</c><c>{i + 1:4d}</c></rc>" for i, (k, c) in enumerate(groups(z)) for _ in range(c)] + ["   </set>", "  </array>", " </atominfo>"]
    out += [" <parameters>", '  <separator name="ionic" >'] + ([f'   <i name="POTIM"> {timestep:.8f}</i>'] if timestep is not None else []) + ["  </separator>", " </parameters>"]
    out += st(x, ' name="initialpos"')
    out += [" <calculation>"]
    if tensor is not None: out += ['  <varray name="epsilon" >'] + [v(np.zeros(3))] * 3 + ["  </varray>", '  <varray name="dielectric_dft" >'] + [v(a) for a in tensor] + ["  </varray>"]
    if phonons is not None:
        e, V = phonons
        out += ["  <dynmat>", '   <v name="eigenvalues"> ' + row(e, "%18.10f") + "</v>", '   <varray name="eigenvectors" >'] + [v(a) for a in V] + ["   </varray>", "  </dynmat>"]
    out += [" </calculation>"]
    for q in md or []: out += st(q) + [" <calculation>", '  <energy> <i name="e_fr_energy"> 0.1 </i> </energy>', " </calculation>"]
    out += st(x, ' name="finalpos"') + ["</modeling>"]
    return "\n".join(out) + "\n"
