"""One-step adiabatic stirred reactors with analytic response curves."""
import numpy as np

import toys

R = toys.R
KCAL = 4184.0


class OneStep:
    """order n: n A => n B with rate constant A0 exp(-Ea/RT) (SI, mol), heat release so
    that pure A rises by dT; optional inert diluent and products in the inlet."""

    def __init__(self, order, A0, Ea, dT, Tin, P, yin=1.0, yb=0.0):
        self.order, self.A0, self.Ea, self.dT, self.Tin, self.P, self.yin, self.yb = order, A0, Ea, dT, Tin, P, yin, yb

    def mech(self):
        n = self.order
        eq = "A => B" if n == 1 else f"{n} A => {n} B"
        # units of the file: cm, mol, s, cal; A0 in (m3/mol)^(n-1)/s
        A = self.A0 * (1e6 ** (n - 1))
        t = toys.toy(["A", "B", "N"], [toys.rxn(eq, repr(float(A)), Ea=repr(float(self.Ea) / 4.184))], cp=25.0,
                     h={"B": -25.0 * self.dT / 4.184})
        return t

    def inlet(self, gas):
        gas.TPY = self.Tin, self.P, {"A": self.yin, "B": self.yb, "N": 1.0 - self.yin - self.yb}

    @property
    def Tad(self):
        return self.Tin + self.dT * self.yin

    def tau(self, T):
        """Residence time of the steady state at temperature T."""
        with np.errstate(all="ignore"):
            burned = (T - self.Tin) / self.dT
            Y = self.yin - burned
            k = self.A0 * np.exp(-self.Ea / (R * T))
            n = self.order
            # molar concentration of A: Y P / (R T); -dY/dt = n k C^(n-1) Y
            return burned / (n * k * (Y * self.P / (R * T)) ** (n - 1) * Y)

    def Y(self, T):
        ya = self.yin - (T - self.Tin) / self.dT
        return np.array([ya, self.yb + self.yin - ya, 1.0 - self.yin - self.yb])

    def folds(self):
        """(T, tau) of the extinction and of the ignition turning point, or None if monotone."""
        T = self.Tin + (self.Tad - self.Tin) * np.linspace(1e-7, 1 - 1e-7, 400001)
        s = np.log(self.tau(T))
        d = np.sign(np.diff(s))
        turn = np.where(d[1:] * d[:-1] < 0)[0] + 1
        if len(turn) != 2:
            return None
        ig, ex = turn
        return tuple((float(T[i]), float(np.exp(s[i]))) for i in (ex, ig))
