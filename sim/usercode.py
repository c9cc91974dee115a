"""Model functions as a user of the package might supply them: their code runs
inside the calls, so the simulator also switches threads and fails in here."""
import arcticpy as ac
import numpy as np


class Hook:
    """What the simulator wants user code to do when it is called."""

    def __init__(self):
        self.calls = 0
        self.at = None
        self.do = None

    def tick(self):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            do = self.do
            do()


HOOK = Hook()


class UserError(Exception):
    pass


class UserCCD(ac.CCD):
    """A well-filling model written in Python by the user."""

    def well_filling_function(self, phase=0):
        function = super().well_filling_function(phase)

        def user_function(n_electrons, surface=False):
            volume = function(n_electrons, surface)
            HOOK.tick()
            return volume

        return user_function


class UserTrap(ac.TrapInstantCapture):
    def fill_fraction_from_time_elapsed(self, time_elapsed):
        fill = np.exp(-time_elapsed / self.release_timescale)
        HOOK.tick()
        return fill

    def distribution_within_pixel(self, fractional_volume=0):
        HOOK.tick()
        return None


def user_log_normal(x, median, sigma):
    if x <= 0:
        return 0.0
    y = np.exp(-((np.log(x) - np.log(median)) ** 2) / (2 * sigma ** 2)) / (x * sigma * np.sqrt(2 * np.pi))
    HOOK.tick()
    return y


def use_global_random(actions):
    """A client that relies on the global generators' sequences."""
    import random

    out = []
    for name, arg in actions:
        if name == "np.seed":
            np.random.seed(arg)
        elif name == "np.rand":
            out.append(float(np.random.rand(arg).sum()))
        elif name == "np.normal":
            out.append(float(np.random.normal()))
        elif name == "np.poisson":
            out.append(float(np.random.poisson(arg)))
        elif name == "np.shuffle":
            a = np.arange(arg)
            np.random.shuffle(a)
            out.append(float(a[0]))
        elif name == "py.seed":
            random.seed(arg)
        elif name == "py.random":
            out.append(random.random())
        elif name == "py.gauss":
            out.append(random.gauss(0, 1))
    return out
