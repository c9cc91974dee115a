From 2542e930692fc8c7088ed7e49c853589a66b57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 01/21] fix: charge injection ROE no longer remembers the first
 image's number of transfers

With n_pixel_transfers=None the default was stored on the object by the first
call, so later calls with images of another size used the wrong number of
transfers.
---
 arcticpy/roe.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..233595c 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -688,25 +688,27 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        # Don't store the default, since it depends on this particular image
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 5b31f3f76708958d8b0071916c6ed853a01112df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 02/21] fix: import math and util, which the charge injection
 express matrix uses for the int type

---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 233595c..5452cb7 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From d0ab385e163a600c89fa0076875b700eea778656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 03/21] fix: draw Poisson traps from a local generator instead
 of re-seeding numpy's global one

---
 arcticpy/traps.py | 831 +++++++++++++++++++++++-----------------------
 1 file changed, 416 insertions(+), 415 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..5fb97e8 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -1,415 +1,416 @@
-import numpy as np
-from scipy import integrate, optimize
-from copy import deepcopy
-from arcticpy import util
-
-
-class Trap(object):
-    def __init__(
-        self, density=0.13, release_timescale=0.25, capture_timescale=0, surface=False,
-    ):
-        """ The parameters for a single trap species.
-        
-        Controls the density of traps and the timescales/probabilities of 
-        capture and release, along with utilities for the watermarking tracking 
-        of trap states and the calculation of capture and release.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale : float
-            The release timescale of the trap, in the same units as the time 
-            spent in each pixel or phase (Clocker sequence).
-            
-        capture_timescale : float
-            The capture timescale of the trap. Default 0 for instant capture.
-            
-        surface : bool
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS
-            #
-            
-        Attributes
-        ----------
-        capture_rate, emission_rate : float
-            The capture and emission rates (Lindegren (1998) section 3.2).
-        """
-
-        self.density = float(density)
-        self.release_timescale = release_timescale
-        self.capture_timescale = capture_timescale
-        self.surface = surface
-
-        # Rates
-        self.emission_rate = 1 / self.release_timescale
-
-        if self.capture_timescale == 0:
-            self.capture_rate = np.inf
-        else:
-            self.capture_rate = 1 / self.capture_timescale
-
-    def distribution_within_pixel(self, fractional_volume=0):
-        if self.surface:
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS OR SPECIES WITH NONUNIFORM DENSITY WITHIN A PIXEL
-            #
-            pass
-        return None
-
-    def fill_fraction_from_time_elapsed(self, time_elapsed):
-        """ Calculate the fraction of filled traps after a certain time_elapsed.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The total time elapsed since the traps were filled, in the same 
-            units as the trap timescales.
-
-        Returns
-        -------
-        fill_fraction : float
-            The fraction of filled traps.
-        """
-        return np.exp(-time_elapsed / self.release_timescale)
-
-    def time_elapsed_from_fill_fraction(self, fill_fraction):
-        """ Calculate the total time elapsed from the fraction of filled traps.
-
-        Parameters
-        ----------
-        fill_fraction : float
-            The fraction of filled traps.
-
-        Returns
-        -------
-        time_elapsed : float
-            The time elapsed, in the same units as the trap timescales.
-        """
-        return -self.release_timescale * np.log(fill_fraction)
-
-    def electrons_released_from_electrons_and_dwell_time(self, electrons, dwell_time=1):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        electrons : float
-            The initial number of trapped electrons.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap timescales.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-        return electrons * (1 - self.fill_fraction_from_time_elapsed(dwell_time))
-
-    def electrons_released_from_time_elapsed_and_dwell_time(
-        self, time_elapsed, dwell_time=1
-    ):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The time elapsed since capture.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap release_timescale.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-        return np.exp(-time_elapsed / self.release_timescale) * (
-            1 - np.exp(-dwell_time / self.release_timescale)
-        )
-
-    @property
-    def delta_ellipticity(self):
-        """ Calculate the effect on a galaxy's ellipticity of the CTI caused by
-            a trap species.
-        
-        See Israel et al. (2014).
-        """
-
-        a = 0.05333
-        d_a = 0.03357
-        d_p = 1.628
-        d_w = 0.2951
-        g_a = 0.09901
-        g_p = 0.4553
-        g_w = 0.4132
-
-        return self.density * (
-            a
-            + d_a * (np.arctan((np.log(self.release_timescale) - d_p) / d_w))
-            + (
-                g_a
-                * np.exp(
-                    -((np.log(self.release_timescale) - g_p) ** 2.0) / (2 * g_w ** 2.0)
-                )
-            )
-        )
-
-    @classmethod
-    def poisson_trap(cls, trap, shape, seed=0):
-        """
-        For a set of traps with a given set of densities (which are in traps 
-        per pixel), compute a new set of trap densities by drawing new values 
-        for from a Poisson distribution.
-
-        This requires us to first convert each trap density to the total number 
-        of traps in the column.
-
-        This is used to model the random distribution of traps on a CCD, which 
-        changes the number of traps in each column.
-
-        Parameters
-        ----------
-        trap : Trap
-            A trap species object.
-        
-        shape : (int, int)
-            The shape of the image, so that the correct number of trap densities 
-            are computed.
-            
-        seed : int
-            The seed of the Poisson random number generator.
-        """
-        np.random.seed(seed)
-        total_traps = tuple(map(lambda sp: sp.density * shape[0], trap))
-        poisson_densities = [
-            np.random.poisson(total_traps) / shape[0] for _ in range(shape[1])
-        ]
-        poisson_trap = []
-        for densities in poisson_densities:
-            for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
-
-        return poisson_trap
-
-
-class TrapInstantCapture(Trap):
-    """ For the old C++ style release-then-instant-capture algorithm. """
-
-    def __init__(self, density=0.13, release_timescale=0.25, surface=False):
-        """ The parameters for a single trap species.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale : float
-            The release timescale of the trap, in the same units as the time 
-            spent in each pixel or phase (Clocker sequence).
-            
-        surface : bool
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS
-            #
-        """
-        super().__init__(
-            density=density,
-            release_timescale=release_timescale,
-            capture_timescale=0,
-            surface=surface,
-        )
-
-
-class TrapLifetimeContinuumAbstract(TrapInstantCapture):
-    """ Base class for a continuum distribution of release lifetimes.
-    
-    Must be used with TrapManagerTrackTime.
-
-    Primarily intended to be inherited by a class that sets a particular 
-    distribution, e.g. TrapLogNormalLifetimeContinuum.
-    """
-
-    def __init__(
-        self,
-        density,
-        distribution_of_traps_with_lifetime,
-        release_timescale_mu=None,
-        release_timescale_sigma=None,
-    ):
-        """The parameters for a single trap species.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        distribution_of_traps_with_lifetime : func
-            The distribution of traps as a function of release_timescale, mu 
-            lifetime, and lifetime sigma, such that its integral from 0 to 
-            infinity = 1. e.g. a log-normal probability density function.
-            
-        release_timescale_mu : float
-            The mu (e.g. mean or median depending on the distribution) 
-            release timescale of the traps.
-            
-        release_timescale_sigma : float
-            The sigma of release lifetimes of the traps.
-        """
-        super(TrapLifetimeContinuumAbstract, self).__init__(
-            density=density, release_timescale=release_timescale_mu
-        )
-
-        self.distribution_of_traps_with_lifetime = distribution_of_traps_with_lifetime
-        self.release_timescale_mu = release_timescale_mu
-        self.release_timescale_sigma = release_timescale_sigma
-
-    def fill_fraction_from_time_elapsed(self, time_elapsed):
-        """ Calculate the fraction of filled traps after a certain time_elapsed.
-    
-        Parameters
-        ----------
-        time_elapsed : float
-            The total time elapsed since the traps were filled, in the same 
-            units as the trap timescales.
-
-        Returns
-        -------
-        fill_fraction : float
-            The fraction of filled traps.
-        """
-
-        def integrand(release_timescale, time_elapsed, mu, sigma):
-            return self.distribution_of_traps_with_lifetime(
-                release_timescale, mu, sigma
-            ) * np.exp(-time_elapsed / release_timescale)
-
-        fill_fraction = integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-        return fill_fraction
-
-    def time_elapsed_from_fill_fraction(self, fill_fraction):
-        """ Calculate the total time elapsed from the fraction of filled traps.
-    
-        Parameters
-        ----------
-        fill_fraction : float
-            The fraction of filled traps.
-
-        Returns
-        -------
-        time_elapsed : float
-            The time elapsed, in the same units as the trap timescales.
-        """
-        # Crudely iterate to find the time that gives the required fill fraction
-        def find_time(time_elapsed):
-            return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
-
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
-
-        # Check solution (seems to be slightly unreliable for very small sigmas)
-        assert abs(find_time(time_elapsed)) < 1e-7
-
-        return time_elapsed
-
-    def electrons_released_from_time_elapsed_and_dwell_time(
-        self, time_elapsed, dwell_time=1
-    ):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The time elapsed since capture.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap timescales.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-
-        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
-            return (
-                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
-                * np.exp(-time_elapsed / release_timescale)
-                * (1 - np.exp(-dwell_time / release_timescale))
-            )
-
-        return integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                dwell_time,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-
-class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-    """ For a log-normal continuum distribution of release lifetimes. """
-
-    @staticmethod
-    def log_normal_distribution(x, median, sigma):
-        """ Return the log-normal probability density.
-            
-        Parameters
-        ----------
-        x : float 
-            The input value.
-            
-        median : float 
-            The median of the distribution.
-            
-        sigma : float 
-            The sigma of the distribution.
-            
-        Returns
-        --------
-        """
-        return np.exp(-((np.log(x) - np.log(median)) ** 2) / (2 * sigma ** 2)) / (
-            x * sigma * np.sqrt(2 * np.pi)
-        )
-
-    def __init__(
-        self, density, release_timescale_mu=None, release_timescale_sigma=None,
-    ):
-        """The parameters for a single trap species.
-
-        Parameters
-        ---------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale_mu : float
-            The median release timescale of the traps.
-            
-        release_timescale_sigma : float
-            The sigma of release lifetimes of the traps.
-        """
-
-        super(TrapLogNormalLifetimeContinuum, self).__init__(
-            density=density,
-            distribution_of_traps_with_lifetime=self.log_normal_distribution,
-            release_timescale_mu=release_timescale_mu,
-            release_timescale_sigma=release_timescale_sigma,
-        )
+import numpy as np
+from scipy import integrate, optimize
+from copy import deepcopy
+from arcticpy import util
+
+
+class Trap(object):
+    def __init__(
+        self, density=0.13, release_timescale=0.25, capture_timescale=0, surface=False,
+    ):
+        """ The parameters for a single trap species.
+        
+        Controls the density of traps and the timescales/probabilities of 
+        capture and release, along with utilities for the watermarking tracking 
+        of trap states and the calculation of capture and release.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale : float
+            The release timescale of the trap, in the same units as the time 
+            spent in each pixel or phase (Clocker sequence).
+            
+        capture_timescale : float
+            The capture timescale of the trap. Default 0 for instant capture.
+            
+        surface : bool
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS
+            #
+            
+        Attributes
+        ----------
+        capture_rate, emission_rate : float
+            The capture and emission rates (Lindegren (1998) section 3.2).
+        """
+
+        self.density = float(density)
+        self.release_timescale = release_timescale
+        self.capture_timescale = capture_timescale
+        self.surface = surface
+
+        # Rates
+        self.emission_rate = 1 / self.release_timescale
+
+        if self.capture_timescale == 0:
+            self.capture_rate = np.inf
+        else:
+            self.capture_rate = 1 / self.capture_timescale
+
+    def distribution_within_pixel(self, fractional_volume=0):
+        if self.surface:
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS OR SPECIES WITH NONUNIFORM DENSITY WITHIN A PIXEL
+            #
+            pass
+        return None
+
+    def fill_fraction_from_time_elapsed(self, time_elapsed):
+        """ Calculate the fraction of filled traps after a certain time_elapsed.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The total time elapsed since the traps were filled, in the same 
+            units as the trap timescales.
+
+        Returns
+        -------
+        fill_fraction : float
+            The fraction of filled traps.
+        """
+        return np.exp(-time_elapsed / self.release_timescale)
+
+    def time_elapsed_from_fill_fraction(self, fill_fraction):
+        """ Calculate the total time elapsed from the fraction of filled traps.
+
+        Parameters
+        ----------
+        fill_fraction : float
+            The fraction of filled traps.
+
+        Returns
+        -------
+        time_elapsed : float
+            The time elapsed, in the same units as the trap timescales.
+        """
+        return -self.release_timescale * np.log(fill_fraction)
+
+    def electrons_released_from_electrons_and_dwell_time(self, electrons, dwell_time=1):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        electrons : float
+            The initial number of trapped electrons.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap timescales.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+        return electrons * (1 - self.fill_fraction_from_time_elapsed(dwell_time))
+
+    def electrons_released_from_time_elapsed_and_dwell_time(
+        self, time_elapsed, dwell_time=1
+    ):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The time elapsed since capture.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap release_timescale.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+        return np.exp(-time_elapsed / self.release_timescale) * (
+            1 - np.exp(-dwell_time / self.release_timescale)
+        )
+
+    @property
+    def delta_ellipticity(self):
+        """ Calculate the effect on a galaxy's ellipticity of the CTI caused by
+            a trap species.
+        
+        See Israel et al. (2014).
+        """
+
+        a = 0.05333
+        d_a = 0.03357
+        d_p = 1.628
+        d_w = 0.2951
+        g_a = 0.09901
+        g_p = 0.4553
+        g_w = 0.4132
+
+        return self.density * (
+            a
+            + d_a * (np.arctan((np.log(self.release_timescale) - d_p) / d_w))
+            + (
+                g_a
+                * np.exp(
+                    -((np.log(self.release_timescale) - g_p) ** 2.0) / (2 * g_w ** 2.0)
+                )
+            )
+        )
+
+    @classmethod
+    def poisson_trap(cls, trap, shape, seed=0):
+        """
+        For a set of traps with a given set of densities (which are in traps 
+        per pixel), compute a new set of trap densities by drawing new values 
+        for from a Poisson distribution.
+
+        This requires us to first convert each trap density to the total number 
+        of traps in the column.
+
+        This is used to model the random distribution of traps on a CCD, which 
+        changes the number of traps in each column.
+
+        Parameters
+        ----------
+        trap : Trap
+            A trap species object.
+        
+        shape : (int, int)
+            The shape of the image, so that the correct number of trap densities 
+            are computed.
+            
+        seed : int
+            The seed of the Poisson random number generator.
+        """
+        # Use a local generator, to not re-seed (or depend on) the global one
+        random_state = np.random.RandomState(seed)
+        total_traps = tuple(map(lambda sp: sp.density * shape[0], trap))
+        poisson_densities = [
+            random_state.poisson(total_traps) / shape[0] for _ in range(shape[1])
+        ]
+        poisson_trap = []
+        for densities in poisson_densities:
+            for i, trap_i in enumerate(trap):
+                poisson_trap.append(
+                    Trap(
+                        density=densities[i], release_timescale=trap_i.release_timescale
+                    )
+                )
+
+        return poisson_trap
+
+
+class TrapInstantCapture(Trap):
+    """ For the old C++ style release-then-instant-capture algorithm. """
+
+    def __init__(self, density=0.13, release_timescale=0.25, surface=False):
+        """ The parameters for a single trap species.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale : float
+            The release timescale of the trap, in the same units as the time 
+            spent in each pixel or phase (Clocker sequence).
+            
+        surface : bool
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS
+            #
+        """
+        super().__init__(
+            density=density,
+            release_timescale=release_timescale,
+            capture_timescale=0,
+            surface=surface,
+        )
+
+
+class TrapLifetimeContinuumAbstract(TrapInstantCapture):
+    """ Base class for a continuum distribution of release lifetimes.
+    
+    Must be used with TrapManagerTrackTime.
+
+    Primarily intended to be inherited by a class that sets a particular 
+    distribution, e.g. TrapLogNormalLifetimeContinuum.
+    """
+
+    def __init__(
+        self,
+        density,
+        distribution_of_traps_with_lifetime,
+        release_timescale_mu=None,
+        release_timescale_sigma=None,
+    ):
+        """The parameters for a single trap species.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        distribution_of_traps_with_lifetime : func
+            The distribution of traps as a function of release_timescale, mu 
+            lifetime, and lifetime sigma, such that its integral from 0 to 
+            infinity = 1. e.g. a log-normal probability density function.
+            
+        release_timescale_mu : float
+            The mu (e.g. mean or median depending on the distribution) 
+            release timescale of the traps.
+            
+        release_timescale_sigma : float
+            The sigma of release lifetimes of the traps.
+        """
+        super(TrapLifetimeContinuumAbstract, self).__init__(
+            density=density, release_timescale=release_timescale_mu
+        )
+
+        self.distribution_of_traps_with_lifetime = distribution_of_traps_with_lifetime
+        self.release_timescale_mu = release_timescale_mu
+        self.release_timescale_sigma = release_timescale_sigma
+
+    def fill_fraction_from_time_elapsed(self, time_elapsed):
+        """ Calculate the fraction of filled traps after a certain time_elapsed.
+    
+        Parameters
+        ----------
+        time_elapsed : float
+            The total time elapsed since the traps were filled, in the same 
+            units as the trap timescales.
+
+        Returns
+        -------
+        fill_fraction : float
+            The fraction of filled traps.
+        """
+
+        def integrand(release_timescale, time_elapsed, mu, sigma):
+            return self.distribution_of_traps_with_lifetime(
+                release_timescale, mu, sigma
+            ) * np.exp(-time_elapsed / release_timescale)
+
+        fill_fraction = integrate.quad(
+            integrand,
+            0,
+            np.inf,
+            args=(
+                time_elapsed,
+                self.release_timescale_mu,
+                self.release_timescale_sigma,
+            ),
+        )[0]
+
+        return fill_fraction
+
+    def time_elapsed_from_fill_fraction(self, fill_fraction):
+        """ Calculate the total time elapsed from the fraction of filled traps.
+    
+        Parameters
+        ----------
+        fill_fraction : float
+            The fraction of filled traps.
+
+        Returns
+        -------
+        time_elapsed : float
+            The time elapsed, in the same units as the trap timescales.
+        """
+        # Crudely iterate to find the time that gives the required fill fraction
+        def find_time(time_elapsed):
+            return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
+
+        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+
+        # Check solution (seems to be slightly unreliable for very small sigmas)
+        assert abs(find_time(time_elapsed)) < 1e-7
+
+        return time_elapsed
+
+    def electrons_released_from_time_elapsed_and_dwell_time(
+        self, time_elapsed, dwell_time=1
+    ):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The time elapsed since capture.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap timescales.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+
+        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
+            return (
+                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
+                * np.exp(-time_elapsed / release_timescale)
+                * (1 - np.exp(-dwell_time / release_timescale))
+            )
+
+        return integrate.quad(
+            integrand,
+            0,
+            np.inf,
+            args=(
+                time_elapsed,
+                dwell_time,
+                self.release_timescale_mu,
+                self.release_timescale_sigma,
+            ),
+        )[0]
+
+
+class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
+    """ For a log-normal continuum distribution of release lifetimes. """
+
+    @staticmethod
+    def log_normal_distribution(x, median, sigma):
+        """ Return the log-normal probability density.
+            
+        Parameters
+        ----------
+        x : float 
+            The input value.
+            
+        median : float 
+            The median of the distribution.
+            
+        sigma : float 
+            The sigma of the distribution.
+            
+        Returns
+        --------
+        """
+        return np.exp(-((np.log(x) - np.log(median)) ** 2) / (2 * sigma ** 2)) / (
+            x * sigma * np.sqrt(2 * np.pi)
+        )
+
+    def __init__(
+        self, density, release_timescale_mu=None, release_timescale_sigma=None,
+    ):
+        """The parameters for a single trap species.
+
+        Parameters
+        ---------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale_mu : float
+            The median release timescale of the traps.
+            
+        release_timescale_sigma : float
+            The sigma of release lifetimes of the traps.
+        """
+
+        super(TrapLogNormalLifetimeContinuum, self).__init__(
+            density=density,
+            distribution_of_traps_with_lifetime=self.log_normal_distribution,
+            release_timescale_mu=release_timescale_mu,
+            release_timescale_sigma=release_timescale_sigma,
+        )
-- 
2.43.0


From 64b358184af3debba4b3dbd36c44d963ab783659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 04/21] fix: don't change the process-wide warning filters
 while clocking

warnings.catch_warnings() swaps the filters of the whole process, so calls in
other threads raced with it and could leave the filters changed for good. Only
evaluate the non-instant capture rates instead, which needs no filter.
---
 arcticpy/trap_managers.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..4c7c9ec 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -2,7 +2,6 @@ import numpy as np
 from collections import UserList
 from scipy import integrate, optimize
 from copy import deepcopy
-import warnings
 from arcticpy.traps import (
     Trap,
     TrapLifetimeContinuumAbstract,
@@ -326,15 +325,13 @@ class TrapManager(object):
             1 - np.exp(-self.total_rates * dwell_time)
         ) / self.total_rates
 
-        # New fill fraction for empty traps (Eqn. 20)
-        # Ignore unnecessary warning from instant capture
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore", message="invalid value encountered in multiply"
-            )
-            fill_probabilities_from_empty = self.capture_rates * exponential_factor
-        # Fix for instant capture
-        fill_probabilities_from_empty[np.isnan(fill_probabilities_from_empty)] = 1
+        # New fill fraction for empty traps (Eqn. 20), always full for instant
+        # capture (for which the rate is infinite)
+        fill_probabilities_from_empty = np.ones_like(exponential_factor)
+        not_instant = np.isfinite(self.capture_rates)
+        fill_probabilities_from_empty[not_instant] = (
+            self.capture_rates[not_instant] * exponential_factor[not_instant]
+        )
 
         # New fill fraction for filled traps (Eqn. 21)
         fill_probabilities_from_full = 1 - self.emission_rates * exponential_factor
-- 
2.43.0


From 0500e029ebf232a2212557ae26cdfeaceeb4617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 05/21] fix: rotate the watermarks in place, without an
 unchecked malloc

A failed allocation was written to as a null pointer.
---
 arcticpy/trap_managers_utils.pyx | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/arcticpy/trap_managers_utils.pyx b/arcticpy/trap_managers_utils.pyx
index 1d09cba..54839a2 100644
--- a/arcticpy/trap_managers_utils.pyx
+++ b/arcticpy/trap_managers_utils.pyx
@@ -4,7 +4,6 @@ cimport cython
 import numpy as np
 cimport numpy as np
 
-from libc.stdlib cimport malloc, free
 from libc.math cimport exp
 
 
@@ -13,27 +12,19 @@ from libc.math cimport exp
 @cython.wraparound(False)
 cdef void roll_2d_vertical_1(np.float64_t[:, :] arr) nogil:
     """ Equivalent to np.roll(arr, 1, axis=0) """
-    # Unfortunately we cannot use np.zeros without the gil, so good old 
-    # fashioned C is used instead
-    cdef np.float64_t * arr_last_row = <np.float64_t *> malloc(
-        sizeof(np.float64_t) * arr.shape[1]
-    )
+    cdef np.float64_t last_row_value
     cdef np.int64_t i, j
 
-    # Copy the last row
     for j in range(0, arr.shape[1], 1):
-        arr_last_row[j] = arr[arr.shape[0] - 1, j]
+        # Copy the last row
+        last_row_value = arr[arr.shape[0] - 1, j]
 
-    # Move all the rows up an index
-    for i in range(1, arr.shape[0], 1):
-        for j in range(0, arr.shape[1], 1):
+        # Move all the rows up an index
+        for i in range(1, arr.shape[0], 1):
             arr[arr.shape[0] - i, j] = arr[arr.shape[0] - i - 1, j]
 
-    # Put the copied last row into the 0 index
-    for j in range(0, arr.shape[1], 1):
-        arr[0, j] = arr_last_row[j]
-
-    free(arr_last_row)
+        # Put the copied last row into the 0 index
+        arr[0, j] = last_row_value
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From b872279401128b3c45b0b11a017ff645d7da545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 06/21] fix: pad the image before the first row too, instead of
 accessing memory outside it

Without force_release_away_from_readout (and for trap pumping) multi-phase
clocking refers to the pixel before the first row. Negative indices do not wrap
in the Cython loop, so that read and wrote outside the image array.
---
 arcticpy/main_utils.pyx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..7fa69ae 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -168,7 +168,13 @@ def cy_clock_charge_in_one_direction(
     )
     zero_padding = np.zeros((n_rows_zero_padding, image_in.shape[1]), dtype=np.float64)
 
-    cdef np.float64_t[:, :] image = np.concatenate((image_in, zero_padding), axis=0)
+    # Charge packets closer to readout than the first row need padding as well
+    cdef np.int64_t n_rows_before = max(0, -min(roe.pixels_accessed_during_clocking))
+    zero_padding_before = np.zeros((n_rows_before, image_in.shape[1]), dtype=np.float64)
+
+    cdef np.float64_t[:, :] image = np.concatenate(
+        (zero_padding_before, image_in, zero_padding), axis=0
+    )
     
     # Read out one column of pixels through the (column of) traps
     for column_index in window_column_range:
@@ -200,7 +206,9 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase) for the initial charge
                         row_index_read = (
-                            window_row_range[row_index] + roe_phase.capture_from_which_pixel
+                            n_rows_before
+                            + window_row_range[row_index]
+                            + roe_phase.capture_from_which_pixel
                         )
 
                         # Initial charge (0 if this phase's potential is not high)
@@ -226,7 +234,8 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase(s)) for the returned charge
                         row_indices_write = (
-                            window_row_range[row_index]
+                            n_rows_before
+                            + window_row_range[row_index]
                             + roe_phase.release_to_which_pixels
                         )
 
@@ -258,8 +267,7 @@ def cy_clock_charge_in_one_direction(
 
     # Unexpand the image to its original dimensions
     image_out = np.asarray(image)
-    if n_rows_zero_padding > 0:
-        image_out = image_out[0:-n_rows_zero_padding, :]
+    image_out = image_out[n_rows_before : n_rows_before + image_in.shape[0], :]
 
     return image_out
 
-- 
2.43.0


From 6d8eb227899a73d69a16639ada58593f09282442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 07/21] fix: charge injection express matrix covers only the
 rows in the window

A window that does not start at the first row raised an IndexError.
---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 5452cb7..44d6637 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -724,7 +724,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From 64173ae19aaec11877f759737bf9840d2728b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 08/21] fix: save trap states for a single row of pixels

The row index was unbound (UnboundLocalError) for images or windows one pixel
long with empty_traps_for_first_transfers=False.
---
 arcticpy/roe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 44d6637..faec181 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -618,6 +618,8 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
+                # (Nothing to search for with a single pixel)
+                row_index = 0
                 for row_index in range(n_pixels - 1):
                     if express_matrix[express_index + 1, row_index + 1] > 0:
                         break
-- 
2.43.0


From 5447ef149fff7f493d53d1941e7f54981d060a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 09/21] fix: a cloud that reaches no traps leaves no stale fill
 fractions behind

The first capture from a cloud below the notch marked the still inactive first
watermark as full, so the next capture took more electrons than were available.
---
 arcticpy/trap_managers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 4c7c9ec..2d30fa6 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -554,6 +554,10 @@ class TrapManager(object):
         Make the new watermark then can return immediately.
         """
 
+        # No traps reached, e.g. the cloud is smaller than the notch
+        if cloud_fractional_volume == 0:
+            return 0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
@@ -930,6 +934,10 @@ class TrapManagerInstantCapture(TrapManager):
         
         Make the new watermark then can return immediately.
         """
+        # No traps reached, e.g. the cloud is smaller than the notch
+        if cloud_fractional_volume == 0:
+            return 0.0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
-- 
2.43.0


From c5c77edfd91fcf3f09103bc5bd0372eb0c6f0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 10/21] fix: a cloud raised above the highest watermark by
 released electrons gets a new watermark

---
 arcticpy/trap_managers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 2d30fa6..ed80227 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -648,8 +648,21 @@ class TrapManager(object):
             max_watermark_index=max_watermark_index,
         )
 
+        # The released electrons can raise the cloud above the highest watermark
+        if watermark_index_above_cloud > max_watermark_index:
+            # Initialise the new watermark, duplicated for the initial watermarks
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+
+            # Increment the index now that an extra watermark has been set
+            max_watermark_index += 1
+
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From 4ec0a0707cbe3d93dd764b4ea67da28cfdc50894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 11/21] fix: released and captured electrons can't leave fewer
 than zero free electrons

The check that there are enough electrons compared the net capture, which
already includes the released electrons, with the sum of the free and released
electrons, so more electrons could be captured than were available.
---
 arcticpy/trap_managers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index ed80227..2d85e16 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -731,9 +731,10 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
-        # Initial watermarks and number of electrons in traps
+        # Initial watermarks and number of free and trapped electrons
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
+        n_free_electrons_initial = n_free_electrons
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
         )
@@ -834,11 +835,12 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
-            n_trapped_electrons_final - n_trapped_electrons_initial
-        )
-        if 0 < enough < 1:
+        # Not enough available electrons to capture. The released electrons are
+        # already included in this net increase
+        n_electrons_captured = n_trapped_electrons_final - n_trapped_electrons_initial
+        if n_electrons_captured > 0 and n_free_electrons_initial < n_electrons_captured:
+            enough = max(n_free_electrons_initial, 0) / n_electrons_captured
+
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From e2c8da73da1fa1b15017cdb3121149587e533002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 12/21] fix: find the highest active watermark even if rounding
 leaves an empty level below it

A cloud that only just differs from a watermark can create a level with zero
volume, at which the search for the highest active level then stopped, so later
levels were overwritten. Also start any new highest level from empty.
---
 arcticpy/trap_managers.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 2d85e16..593147a 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -358,6 +358,22 @@ class TrapManager(object):
             watermarks, self.n_traps_per_pixel
         )
 
+    def n_active_watermarks(self, watermarks):
+        """ The number of watermark levels up to the highest active one.
+
+        Rounding can leave a level in between with no volume, so look for the
+        last level that has a volume instead of the first that doesn't.
+
+        Parameters
+        ----------
+        watermarks : np.ndarray
+            The watermarks. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        active_levels = np.flatnonzero(watermarks[:, 0])
+
+        return active_levels[-1] + 1 if len(active_levels) > 0 else 0
+
     def empty_all_traps(self):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
@@ -651,6 +667,8 @@ class TrapManager(object):
         # The released electrons can raise the cloud above the highest watermark
         if watermark_index_above_cloud > max_watermark_index:
             # Initialise the new watermark, duplicated for the initial watermarks
+            self.watermarks[watermark_index_above_cloud, 1:] = 0
+            watermarks_initial[watermark_index_above_cloud, 1:] = 0
             self.watermarks[
                 watermark_index_above_cloud, 0
             ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
@@ -747,7 +765,7 @@ class TrapManager(object):
         ) = self.fill_probabilities_from_dwell_time(dwell_time=dwell_time)
 
         # Find the highest active watermark
-        max_watermark_index = np.argmax(self.watermarks[:, 0] == 0) - 1
+        max_watermark_index = self.n_active_watermarks(self.watermarks) - 1
 
         # The fractional volume the electron cloud reaches in the pixel well
         cloud_fractional_volume = self.fraction_of_traps_exposed_from_n_electrons(
@@ -804,6 +822,8 @@ class TrapManager(object):
         # Cloud fractional volume above existing watermarks
         else:
             # Initialise the new watermark, duplicated for the initial watermarks
+            self.watermarks[watermark_index_above_cloud, 1:] = 0
+            watermarks_initial[watermark_index_above_cloud, 1:] = 0
             self.watermarks[
                 watermark_index_above_cloud, 0
             ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
@@ -919,7 +939,7 @@ class TrapManagerInstantCapture(TrapManager):
         )
 
         # Find the highest active watermark
-        max_watermark_index = np.argmax(self.watermarks[:, 0] == 0) - 1
+        max_watermark_index = self.n_active_watermarks(self.watermarks) - 1
 
         # Release electrons from existing watermark levels
         self.watermarks[
@@ -1069,7 +1089,7 @@ class TrapManagerInstantCapture(TrapManager):
         )
 
         # Find the highest active watermark
-        max_watermark_index = np.argmax(self.watermarks[:, 0] == 0) - 1
+        max_watermark_index = self.n_active_watermarks(self.watermarks) - 1
 
         # The fractional volume the electron cloud reaches in the pixel well
         cloud_fractional_volume = self.fraction_of_traps_exposed_from_n_electrons(
@@ -1117,6 +1137,8 @@ class TrapManagerInstantCapture(TrapManager):
         # Cloud fractional volume above existing watermarks
         else:
             # Initialise the new watermark, duplicated for the initial watermarks
+            self.watermarks[watermark_index_above_cloud, 1:] = 0
+            watermarks_initial[watermark_index_above_cloud, 1:] = 0
             self.watermarks[
                 watermark_index_above_cloud, 0
             ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
@@ -1260,7 +1282,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         watermarks = deepcopy(watermarks)
 
         # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
+        for level in range(self.n_active_watermarks(watermarks)):
             for i_trap, trap in enumerate(self.traps):
                 watermarks[level, 1 + i_trap] = trap.fill_fraction_from_time_elapsed(
                     time_elapsed=watermarks[level, 1 + i_trap]
@@ -1280,7 +1302,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         watermarks = deepcopy(watermarks)
 
         # Convert to elapsed times
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
+        for level in range(self.n_active_watermarks(watermarks)):
             for i_trap, trap in enumerate(self.traps):
                 watermarks[level, 1 + i_trap] = trap.time_elapsed_from_fill_fraction(
                     fill_fraction=watermarks[level, 1 + i_trap]
@@ -1333,7 +1355,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
+        for level in range(self.n_active_watermarks(watermarks)):
             for i_trap, trap in enumerate(self.traps):
                 watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
                     time_elapsed=watermarks[level, i_trap]
@@ -1355,7 +1377,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         )
 
         # Convert back to elapsed times
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
+        for level in range(self.n_active_watermarks(watermarks)):
             for i_trap, trap in enumerate(self.traps):
                 watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
                     fill_fraction=watermarks[level, i_trap]
-- 
2.43.0


From a6de655c310c9e70128c72c99ae9907cac72e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 13/21] fix: extend the watermarks array when the traps are not
 emptied between columns

The array only had space for the transfers of a single column, so traps that
were still occupied from previous columns overfilled it and lost electrons.
---
 arcticpy/trap_managers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 593147a..97442fc 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -374,6 +374,29 @@ class TrapManager(object):
 
         return active_levels[-1] + 1 if len(active_levels) > 0 else 0
 
+    def make_space_for_new_watermarks(self):
+        """ Extend the watermarks array if the next transfer could overfill it.
+
+        e.g. if the traps are not emptied between columns, then the transfers of 
+        all the columns can create new watermark levels.
+        
+        Updates
+        -------
+        watermarks : np.ndarray
+            The watermarks, with extra inactive levels if necessary. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        # The +1 is to ensure there is always at least one zero, see __init__()
+        n_levels_needed = (
+            self.n_active_watermarks(self.watermarks)
+            + self.n_watermarks_per_transfer
+            + 1
+        )
+
+        if self.watermarks.shape[0] < n_levels_needed:
+            extra_levels = np.zeros((n_levels_needed, self.watermarks.shape[1]))
+            self.watermarks = np.concatenate((self.watermarks, extra_levels), axis=0)
+
     def empty_all_traps(self):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
@@ -749,6 +772,9 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure that there is space for new watermarks
+        self.make_space_for_new_watermarks()
+
         # Initial watermarks and number of free and trapped electrons
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
@@ -1081,6 +1107,9 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure that there is space for new watermarks
+        self.make_space_for_new_watermarks()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From dc68b577316c78422cdc4a0c73110f8a250dd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 14/21] fix: limit the capture to the available electrons when
 tracking elapsed times

TrapManagerTrackTime passed self twice (TypeError), updated the fractional
volumes instead of the elapsed times of the watermarks, and treated new empty
levels (elapsed time 0) as already full.
---
 arcticpy/trap_managers.py | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 97442fc..e36a29a 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -374,6 +374,17 @@ class TrapManager(object):
 
         return active_levels[-1] + 1 if len(active_levels) > 0 else 0
 
+    def watermarks_as_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks with fill fractions as their values.
+
+        Parameters
+        ----------
+        watermarks : np.ndarray
+            The watermarks. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        return np.array(watermarks)
+
     def make_space_for_new_watermarks(self):
         """ Extend the watermarks array if the next transfer could overfill it.
 
@@ -1110,11 +1121,12 @@ class TrapManagerInstantCapture(TrapManager):
         # Make sure that there is space for new watermarks
         self.make_space_for_new_watermarks()
 
-        # Save the initial watermarks and number of electrons in traps, in case
+        # Save the initial watermarks (always as fill fractions, for which a new
+        # level starts from empty) and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
-        watermarks_initial = deepcopy(self.watermarks)
-        n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
-            watermarks=self.watermarks
+        watermarks_initial = self.watermarks_as_fill_fractions(self.watermarks)
+        n_trapped_electrons_initial = cy_n_trapped_electrons_from_watermarks(
+            watermarks_initial, self.n_traps_per_pixel
         )
 
         # Find the highest active watermark
@@ -1319,6 +1331,19 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
 
         return watermarks
 
+    def watermarks_as_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks with fill fractions as their values.
+
+        Parameters
+        ----------
+        watermarks : np.ndarray
+            The watermarks. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        return self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks=watermarks
+        )
+
     def watermarks_converted_to_elapsed_times_from_fill_fractions(self, watermarks):
         """ Convert the watermark values to elapsed times.
 
@@ -1371,7 +1396,8 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             
         watermarks_initial : np.ndarray
             The initial watermarks before capture, but with updated fractional 
-            volumes to match the current watermarks.
+            volumes to match the current watermarks, and with fill fractions 
+            instead of elapsed times.
             
         enough : float
             The ratio of available electrons to traps up to this fractional 
@@ -1384,23 +1410,16 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Convert to fill fractions
-        for level in range(self.n_active_watermarks(watermarks)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
+        fill_fractions = self.watermarks_as_fill_fractions(watermarks)
+
+        # Only the levels that captured need to be updated
+        captured = fill_fractions[:, 1:] != watermarks_initial[:, 1:]
 
         # Update the fill fractions in the standard way
-        watermarks = super(
+        fill_fractions = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
+            watermarks=fill_fractions,
             watermarks_initial=watermarks_initial,
             enough=enough,
         )
@@ -1408,9 +1427,10 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         # Convert back to elapsed times
         for level in range(self.n_active_watermarks(watermarks)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
+                if captured[level, i_trap]:
+                    watermarks[level, 1 + i_trap] = trap.time_elapsed_from_fill_fraction(
+                        fill_fraction=fill_fractions[level, 1 + i_trap]
+                    )
 
         return watermarks
 
-- 
2.43.0


From 7c2cec065b14cc3397596e33784ace765cb6dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 15/21] fix: collapse filled watermarks when tracking elapsed
 times like for fill fractions

The inactive levels' elapsed times of 0 also looked completely filled, so the
watermarks were not collapsed if all of the active ones were filled.
---
 arcticpy/trap_managers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index e36a29a..c3eb1ca 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -537,12 +537,15 @@ class TrapManager(object):
         num_traps = watermarks.shape[1] - 1
 
         # Find the first watermark that is not completely filled for all traps
-        watermark_index_not_filled = min(
-            [
-                np.argmax(watermarks[:, 1 + i_trap] != self.filled_watermark_value)
-                for i_trap in range(num_traps)
-            ]
+        # (the inactive levels' values of 0 mean filled for elapsed times)
+        n_active_watermarks = self.n_active_watermarks(watermarks)
+        not_filled = np.any(
+            watermarks[:n_active_watermarks, 1:] != self.filled_watermark_value, axis=1
         )
+        if np.any(not_filled):
+            watermark_index_not_filled = np.argmax(not_filled)
+        else:
+            watermark_index_not_filled = n_active_watermarks
 
         # Skip if none or only one are completely filled
         if watermark_index_not_filled <= 1:
-- 
2.43.0


From 245b41103bf5ec039543b085f39592153f1858d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 16/21] fix: solve for the continuum traps' elapsed time within
 brackets

The unbracketed solver often failed to find the elapsed time of full or almost
full traps with a broad distribution of lifetimes, raising an AssertionError.
---
 arcticpy/traps.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 5fb97e8..53a8c7e 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -316,11 +316,24 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         time_elapsed : float
             The time elapsed, in the same units as the trap timescales.
         """
-        # Crudely iterate to find the time that gives the required fill fraction
+        # Find the time that gives the required fill fraction
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        # The fill fraction decreases from (about) 1 at time 0, towards 0
+        if fill_fraction <= 0:
+            return np.inf
+        elif find_time(0) <= 0:
+            time_elapsed = 0.0
+        else:
+            # Bracket the solution
+            time_lower, time_upper = 0.0, 0.1 * self.release_timescale_mu
+            while find_time(time_upper) > 0:
+                time_lower, time_upper = time_upper, 2 * time_upper
+
+            time_elapsed = optimize.brentq(
+                find_time, time_lower, time_upper, xtol=1e-300, rtol=1e-14
+            )
 
         # Check solution (seems to be slightly unreliable for very small sigmas)
         assert abs(find_time(time_elapsed)) < 1e-7
-- 
2.43.0


From 2798a722b3782635e81aa672a6e51003798b6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 17/21] fix: don't share the default lists between objects

Changing an element of the dwell times of one ROE, or of the fraction of traps
per phase of one CCD, changed the defaults of all later objects.
---
 arcticpy/ccd.py | 2 +-
 arcticpy/roe.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..2b50a00 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -90,7 +90,7 @@ class CCD(object):
     @fraction_of_traps_per_phase.setter
     def fraction_of_traps_per_phase(self, value):
         if isinstance(value, list):
-            self._fraction_of_traps_per_phase = value
+            self._fraction_of_traps_per_phase = list(value)
         else:
             self._fraction_of_traps_per_phase = [
                 value
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index faec181..0069635 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -124,7 +124,7 @@ class ROEAbstract(object):
         # Check that dwell_times is a list
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = value
+        self._dwell_times = list(value)
 
     @property
     def n_steps(self):
@@ -809,7 +809,7 @@ class ROETrapPumping(ROEAbstract):
         # Check that there are an even number of steps in a there-and-back clocking sequence
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = (
+        self._dwell_times = list(
             value  # This must go before the even check, because n_steps uses it.
         )
         if (self.n_steps % 2) == 1:
-- 
2.43.0


From 764bda2997ad0b4018b09b0e0fa4401dd6ebcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 18/21] fix: a rejected trap pumping dwell_times leaves the old
 ones in place

---
 arcticpy/roe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 0069635..029abb1 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -809,11 +809,9 @@ class ROETrapPumping(ROEAbstract):
         # Check that there are an even number of steps in a there-and-back clocking sequence
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = list(
-            value  # This must go before the even check, because n_steps uses it.
-        )
-        if (self.n_steps % 2) == 1:
+        if (len(value) % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
+        self._dwell_times = list(value)
 
     @property
     def n_phases(self):
-- 
2.43.0


From 6746518f76c6c0ac2574e94a374893819f121fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 19/21] fix: express one less than the number of pixels with
 empty traps for first transfers

The first transfers were left out but not put back, since the second check used
the changed number of pixels, so the matrix was too small (IndexError).
---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 029abb1..10dd073 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -525,7 +525,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfers = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfers:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -551,7 +554,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfers:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From 190a0f639ab6935996b41ac452aeb37ba28239ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 20/21] fix: keep the line endings of traps.py as they were

---
 arcticpy/traps.py | 858 +++++++++++++++++++++++-----------------------
 1 file changed, 429 insertions(+), 429 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 53a8c7e..edd01ba 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -1,429 +1,429 @@
-import numpy as np
-from scipy import integrate, optimize
-from copy import deepcopy
-from arcticpy import util
-
-
-class Trap(object):
-    def __init__(
-        self, density=0.13, release_timescale=0.25, capture_timescale=0, surface=False,
-    ):
-        """ The parameters for a single trap species.
-        
-        Controls the density of traps and the timescales/probabilities of 
-        capture and release, along with utilities for the watermarking tracking 
-        of trap states and the calculation of capture and release.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale : float
-            The release timescale of the trap, in the same units as the time 
-            spent in each pixel or phase (Clocker sequence).
-            
-        capture_timescale : float
-            The capture timescale of the trap. Default 0 for instant capture.
-            
-        surface : bool
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS
-            #
-            
-        Attributes
-        ----------
-        capture_rate, emission_rate : float
-            The capture and emission rates (Lindegren (1998) section 3.2).
-        """
-
-        self.density = float(density)
-        self.release_timescale = release_timescale
-        self.capture_timescale = capture_timescale
-        self.surface = surface
-
-        # Rates
-        self.emission_rate = 1 / self.release_timescale
-
-        if self.capture_timescale == 0:
-            self.capture_rate = np.inf
-        else:
-            self.capture_rate = 1 / self.capture_timescale
-
-    def distribution_within_pixel(self, fractional_volume=0):
-        if self.surface:
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS OR SPECIES WITH NONUNIFORM DENSITY WITHIN A PIXEL
-            #
-            pass
-        return None
-
-    def fill_fraction_from_time_elapsed(self, time_elapsed):
-        """ Calculate the fraction of filled traps after a certain time_elapsed.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The total time elapsed since the traps were filled, in the same 
-            units as the trap timescales.
-
-        Returns
-        -------
-        fill_fraction : float
-            The fraction of filled traps.
-        """
-        return np.exp(-time_elapsed / self.release_timescale)
-
-    def time_elapsed_from_fill_fraction(self, fill_fraction):
-        """ Calculate the total time elapsed from the fraction of filled traps.
-
-        Parameters
-        ----------
-        fill_fraction : float
-            The fraction of filled traps.
-
-        Returns
-        -------
-        time_elapsed : float
-            The time elapsed, in the same units as the trap timescales.
-        """
-        return -self.release_timescale * np.log(fill_fraction)
-
-    def electrons_released_from_electrons_and_dwell_time(self, electrons, dwell_time=1):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        electrons : float
-            The initial number of trapped electrons.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap timescales.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-        return electrons * (1 - self.fill_fraction_from_time_elapsed(dwell_time))
-
-    def electrons_released_from_time_elapsed_and_dwell_time(
-        self, time_elapsed, dwell_time=1
-    ):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The time elapsed since capture.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap release_timescale.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-        return np.exp(-time_elapsed / self.release_timescale) * (
-            1 - np.exp(-dwell_time / self.release_timescale)
-        )
-
-    @property
-    def delta_ellipticity(self):
-        """ Calculate the effect on a galaxy's ellipticity of the CTI caused by
-            a trap species.
-        
-        See Israel et al. (2014).
-        """
-
-        a = 0.05333
-        d_a = 0.03357
-        d_p = 1.628
-        d_w = 0.2951
-        g_a = 0.09901
-        g_p = 0.4553
-        g_w = 0.4132
-
-        return self.density * (
-            a
-            + d_a * (np.arctan((np.log(self.release_timescale) - d_p) / d_w))
-            + (
-                g_a
-                * np.exp(
-                    -((np.log(self.release_timescale) - g_p) ** 2.0) / (2 * g_w ** 2.0)
-                )
-            )
-        )
-
-    @classmethod
-    def poisson_trap(cls, trap, shape, seed=0):
-        """
-        For a set of traps with a given set of densities (which are in traps 
-        per pixel), compute a new set of trap densities by drawing new values 
-        for from a Poisson distribution.
-
-        This requires us to first convert each trap density to the total number 
-        of traps in the column.
-
-        This is used to model the random distribution of traps on a CCD, which 
-        changes the number of traps in each column.
-
-        Parameters
-        ----------
-        trap : Trap
-            A trap species object.
-        
-        shape : (int, int)
-            The shape of the image, so that the correct number of trap densities 
-            are computed.
-            
-        seed : int
-            The seed of the Poisson random number generator.
-        """
-        # Use a local generator, to not re-seed (or depend on) the global one
-        random_state = np.random.RandomState(seed)
-        total_traps = tuple(map(lambda sp: sp.density * shape[0], trap))
-        poisson_densities = [
-            random_state.poisson(total_traps) / shape[0] for _ in range(shape[1])
-        ]
-        poisson_trap = []
-        for densities in poisson_densities:
-            for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
-
-        return poisson_trap
-
-
-class TrapInstantCapture(Trap):
-    """ For the old C++ style release-then-instant-capture algorithm. """
-
-    def __init__(self, density=0.13, release_timescale=0.25, surface=False):
-        """ The parameters for a single trap species.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale : float
-            The release timescale of the trap, in the same units as the time 
-            spent in each pixel or phase (Clocker sequence).
-            
-        surface : bool
-            #
-            # RJM: RESERVED FOR SURFACE TRAPS
-            #
-        """
-        super().__init__(
-            density=density,
-            release_timescale=release_timescale,
-            capture_timescale=0,
-            surface=surface,
-        )
-
-
-class TrapLifetimeContinuumAbstract(TrapInstantCapture):
-    """ Base class for a continuum distribution of release lifetimes.
-    
-    Must be used with TrapManagerTrackTime.
-
-    Primarily intended to be inherited by a class that sets a particular 
-    distribution, e.g. TrapLogNormalLifetimeContinuum.
-    """
-
-    def __init__(
-        self,
-        density,
-        distribution_of_traps_with_lifetime,
-        release_timescale_mu=None,
-        release_timescale_sigma=None,
-    ):
-        """The parameters for a single trap species.
-
-        Parameters
-        ----------
-        density : float
-            The density of the trap species in a pixel.
-            
-        distribution_of_traps_with_lifetime : func
-            The distribution of traps as a function of release_timescale, mu 
-            lifetime, and lifetime sigma, such that its integral from 0 to 
-            infinity = 1. e.g. a log-normal probability density function.
-            
-        release_timescale_mu : float
-            The mu (e.g. mean or median depending on the distribution) 
-            release timescale of the traps.
-            
-        release_timescale_sigma : float
-            The sigma of release lifetimes of the traps.
-        """
-        super(TrapLifetimeContinuumAbstract, self).__init__(
-            density=density, release_timescale=release_timescale_mu
-        )
-
-        self.distribution_of_traps_with_lifetime = distribution_of_traps_with_lifetime
-        self.release_timescale_mu = release_timescale_mu
-        self.release_timescale_sigma = release_timescale_sigma
-
-    def fill_fraction_from_time_elapsed(self, time_elapsed):
-        """ Calculate the fraction of filled traps after a certain time_elapsed.
-    
-        Parameters
-        ----------
-        time_elapsed : float
-            The total time elapsed since the traps were filled, in the same 
-            units as the trap timescales.
-
-        Returns
-        -------
-        fill_fraction : float
-            The fraction of filled traps.
-        """
-
-        def integrand(release_timescale, time_elapsed, mu, sigma):
-            return self.distribution_of_traps_with_lifetime(
-                release_timescale, mu, sigma
-            ) * np.exp(-time_elapsed / release_timescale)
-
-        fill_fraction = integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-        return fill_fraction
-
-    def time_elapsed_from_fill_fraction(self, fill_fraction):
-        """ Calculate the total time elapsed from the fraction of filled traps.
-    
-        Parameters
-        ----------
-        fill_fraction : float
-            The fraction of filled traps.
-
-        Returns
-        -------
-        time_elapsed : float
-            The time elapsed, in the same units as the trap timescales.
-        """
-        # Find the time that gives the required fill fraction
-        def find_time(time_elapsed):
-            return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
-
-        # The fill fraction decreases from (about) 1 at time 0, towards 0
-        if fill_fraction <= 0:
-            return np.inf
-        elif find_time(0) <= 0:
-            time_elapsed = 0.0
-        else:
-            # Bracket the solution
-            time_lower, time_upper = 0.0, 0.1 * self.release_timescale_mu
-            while find_time(time_upper) > 0:
-                time_lower, time_upper = time_upper, 2 * time_upper
-
-            time_elapsed = optimize.brentq(
-                find_time, time_lower, time_upper, xtol=1e-300, rtol=1e-14
-            )
-
-        # Check solution (seems to be slightly unreliable for very small sigmas)
-        assert abs(find_time(time_elapsed)) < 1e-7
-
-        return time_elapsed
-
-    def electrons_released_from_time_elapsed_and_dwell_time(
-        self, time_elapsed, dwell_time=1
-    ):
-        """ Calculate the number of released electrons from the trap.
-
-        Parameters
-        ----------
-        time_elapsed : float
-            The time elapsed since capture.
-        dwell_time : float
-            The time spent in this pixel or phase, in the same units as the 
-            trap timescales.
-
-        Returns
-        -------
-        electrons_released : float
-            The number of released electrons.
-        """
-
-        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
-            return (
-                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
-                * np.exp(-time_elapsed / release_timescale)
-                * (1 - np.exp(-dwell_time / release_timescale))
-            )
-
-        return integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                dwell_time,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-
-class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-    """ For a log-normal continuum distribution of release lifetimes. """
-
-    @staticmethod
-    def log_normal_distribution(x, median, sigma):
-        """ Return the log-normal probability density.
-            
-        Parameters
-        ----------
-        x : float 
-            The input value.
-            
-        median : float 
-            The median of the distribution.
-            
-        sigma : float 
-            The sigma of the distribution.
-            
-        Returns
-        --------
-        """
-        return np.exp(-((np.log(x) - np.log(median)) ** 2) / (2 * sigma ** 2)) / (
-            x * sigma * np.sqrt(2 * np.pi)
-        )
-
-    def __init__(
-        self, density, release_timescale_mu=None, release_timescale_sigma=None,
-    ):
-        """The parameters for a single trap species.
-
-        Parameters
-        ---------
-        density : float
-            The density of the trap species in a pixel.
-            
-        release_timescale_mu : float
-            The median release timescale of the traps.
-            
-        release_timescale_sigma : float
-            The sigma of release lifetimes of the traps.
-        """
-
-        super(TrapLogNormalLifetimeContinuum, self).__init__(
-            density=density,
-            distribution_of_traps_with_lifetime=self.log_normal_distribution,
-            release_timescale_mu=release_timescale_mu,
-            release_timescale_sigma=release_timescale_sigma,
-        )
+import numpy as np
+from scipy import integrate, optimize
+from copy import deepcopy
+from arcticpy import util
+
+
+class Trap(object):
+    def __init__(
+        self, density=0.13, release_timescale=0.25, capture_timescale=0, surface=False,
+    ):
+        """ The parameters for a single trap species.
+        
+        Controls the density of traps and the timescales/probabilities of 
+        capture and release, along with utilities for the watermarking tracking 
+        of trap states and the calculation of capture and release.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale : float
+            The release timescale of the trap, in the same units as the time 
+            spent in each pixel or phase (Clocker sequence).
+            
+        capture_timescale : float
+            The capture timescale of the trap. Default 0 for instant capture.
+            
+        surface : bool
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS
+            #
+            
+        Attributes
+        ----------
+        capture_rate, emission_rate : float
+            The capture and emission rates (Lindegren (1998) section 3.2).
+        """
+
+        self.density = float(density)
+        self.release_timescale = release_timescale
+        self.capture_timescale = capture_timescale
+        self.surface = surface
+
+        # Rates
+        self.emission_rate = 1 / self.release_timescale
+
+        if self.capture_timescale == 0:
+            self.capture_rate = np.inf
+        else:
+            self.capture_rate = 1 / self.capture_timescale
+
+    def distribution_within_pixel(self, fractional_volume=0):
+        if self.surface:
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS OR SPECIES WITH NONUNIFORM DENSITY WITHIN A PIXEL
+            #
+            pass
+        return None
+
+    def fill_fraction_from_time_elapsed(self, time_elapsed):
+        """ Calculate the fraction of filled traps after a certain time_elapsed.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The total time elapsed since the traps were filled, in the same 
+            units as the trap timescales.
+
+        Returns
+        -------
+        fill_fraction : float
+            The fraction of filled traps.
+        """
+        return np.exp(-time_elapsed / self.release_timescale)
+
+    def time_elapsed_from_fill_fraction(self, fill_fraction):
+        """ Calculate the total time elapsed from the fraction of filled traps.
+
+        Parameters
+        ----------
+        fill_fraction : float
+            The fraction of filled traps.
+
+        Returns
+        -------
+        time_elapsed : float
+            The time elapsed, in the same units as the trap timescales.
+        """
+        return -self.release_timescale * np.log(fill_fraction)
+
+    def electrons_released_from_electrons_and_dwell_time(self, electrons, dwell_time=1):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        electrons : float
+            The initial number of trapped electrons.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap timescales.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+        return electrons * (1 - self.fill_fraction_from_time_elapsed(dwell_time))
+
+    def electrons_released_from_time_elapsed_and_dwell_time(
+        self, time_elapsed, dwell_time=1
+    ):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The time elapsed since capture.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap release_timescale.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+        return np.exp(-time_elapsed / self.release_timescale) * (
+            1 - np.exp(-dwell_time / self.release_timescale)
+        )
+
+    @property
+    def delta_ellipticity(self):
+        """ Calculate the effect on a galaxy's ellipticity of the CTI caused by
+            a trap species.
+        
+        See Israel et al. (2014).
+        """
+
+        a = 0.05333
+        d_a = 0.03357
+        d_p = 1.628
+        d_w = 0.2951
+        g_a = 0.09901
+        g_p = 0.4553
+        g_w = 0.4132
+
+        return self.density * (
+            a
+            + d_a * (np.arctan((np.log(self.release_timescale) - d_p) / d_w))
+            + (
+                g_a
+                * np.exp(
+                    -((np.log(self.release_timescale) - g_p) ** 2.0) / (2 * g_w ** 2.0)
+                )
+            )
+        )
+
+    @classmethod
+    def poisson_trap(cls, trap, shape, seed=0):
+        """
+        For a set of traps with a given set of densities (which are in traps 
+        per pixel), compute a new set of trap densities by drawing new values 
+        for from a Poisson distribution.
+
+        This requires us to first convert each trap density to the total number 
+        of traps in the column.
+
+        This is used to model the random distribution of traps on a CCD, which 
+        changes the number of traps in each column.
+
+        Parameters
+        ----------
+        trap : Trap
+            A trap species object.
+        
+        shape : (int, int)
+            The shape of the image, so that the correct number of trap densities 
+            are computed.
+            
+        seed : int
+            The seed of the Poisson random number generator.
+        """
+        # Use a local generator, to not re-seed (or depend on) the global one
+        random_state = np.random.RandomState(seed)
+        total_traps = tuple(map(lambda sp: sp.density * shape[0], trap))
+        poisson_densities = [
+            random_state.poisson(total_traps) / shape[0] for _ in range(shape[1])
+        ]
+        poisson_trap = []
+        for densities in poisson_densities:
+            for i, trap_i in enumerate(trap):
+                poisson_trap.append(
+                    Trap(
+                        density=densities[i], release_timescale=trap_i.release_timescale
+                    )
+                )
+
+        return poisson_trap
+
+
+class TrapInstantCapture(Trap):
+    """ For the old C++ style release-then-instant-capture algorithm. """
+
+    def __init__(self, density=0.13, release_timescale=0.25, surface=False):
+        """ The parameters for a single trap species.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale : float
+            The release timescale of the trap, in the same units as the time 
+            spent in each pixel or phase (Clocker sequence).
+            
+        surface : bool
+            #
+            # RJM: RESERVED FOR SURFACE TRAPS
+            #
+        """
+        super().__init__(
+            density=density,
+            release_timescale=release_timescale,
+            capture_timescale=0,
+            surface=surface,
+        )
+
+
+class TrapLifetimeContinuumAbstract(TrapInstantCapture):
+    """ Base class for a continuum distribution of release lifetimes.
+    
+    Must be used with TrapManagerTrackTime.
+
+    Primarily intended to be inherited by a class that sets a particular 
+    distribution, e.g. TrapLogNormalLifetimeContinuum.
+    """
+
+    def __init__(
+        self,
+        density,
+        distribution_of_traps_with_lifetime,
+        release_timescale_mu=None,
+        release_timescale_sigma=None,
+    ):
+        """The parameters for a single trap species.
+
+        Parameters
+        ----------
+        density : float
+            The density of the trap species in a pixel.
+            
+        distribution_of_traps_with_lifetime : func
+            The distribution of traps as a function of release_timescale, mu 
+            lifetime, and lifetime sigma, such that its integral from 0 to 
+            infinity = 1. e.g. a log-normal probability density function.
+            
+        release_timescale_mu : float
+            The mu (e.g. mean or median depending on the distribution) 
+            release timescale of the traps.
+            
+        release_timescale_sigma : float
+            The sigma of release lifetimes of the traps.
+        """
+        super(TrapLifetimeContinuumAbstract, self).__init__(
+            density=density, release_timescale=release_timescale_mu
+        )
+
+        self.distribution_of_traps_with_lifetime = distribution_of_traps_with_lifetime
+        self.release_timescale_mu = release_timescale_mu
+        self.release_timescale_sigma = release_timescale_sigma
+
+    def fill_fraction_from_time_elapsed(self, time_elapsed):
+        """ Calculate the fraction of filled traps after a certain time_elapsed.
+    
+        Parameters
+        ----------
+        time_elapsed : float
+            The total time elapsed since the traps were filled, in the same 
+            units as the trap timescales.
+
+        Returns
+        -------
+        fill_fraction : float
+            The fraction of filled traps.
+        """
+
+        def integrand(release_timescale, time_elapsed, mu, sigma):
+            return self.distribution_of_traps_with_lifetime(
+                release_timescale, mu, sigma
+            ) * np.exp(-time_elapsed / release_timescale)
+
+        fill_fraction = integrate.quad(
+            integrand,
+            0,
+            np.inf,
+            args=(
+                time_elapsed,
+                self.release_timescale_mu,
+                self.release_timescale_sigma,
+            ),
+        )[0]
+
+        return fill_fraction
+
+    def time_elapsed_from_fill_fraction(self, fill_fraction):
+        """ Calculate the total time elapsed from the fraction of filled traps.
+    
+        Parameters
+        ----------
+        fill_fraction : float
+            The fraction of filled traps.
+
+        Returns
+        -------
+        time_elapsed : float
+            The time elapsed, in the same units as the trap timescales.
+        """
+        # Find the time that gives the required fill fraction
+        def find_time(time_elapsed):
+            return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
+
+        # The fill fraction decreases from (about) 1 at time 0, towards 0
+        if fill_fraction <= 0:
+            return np.inf
+        elif find_time(0) <= 0:
+            time_elapsed = 0.0
+        else:
+            # Bracket the solution
+            time_lower, time_upper = 0.0, 0.1 * self.release_timescale_mu
+            while find_time(time_upper) > 0:
+                time_lower, time_upper = time_upper, 2 * time_upper
+
+            time_elapsed = optimize.brentq(
+                find_time, time_lower, time_upper, xtol=1e-300, rtol=1e-14
+            )
+
+        # Check solution (seems to be slightly unreliable for very small sigmas)
+        assert abs(find_time(time_elapsed)) < 1e-7
+
+        return time_elapsed
+
+    def electrons_released_from_time_elapsed_and_dwell_time(
+        self, time_elapsed, dwell_time=1
+    ):
+        """ Calculate the number of released electrons from the trap.
+
+        Parameters
+        ----------
+        time_elapsed : float
+            The time elapsed since capture.
+        dwell_time : float
+            The time spent in this pixel or phase, in the same units as the 
+            trap timescales.
+
+        Returns
+        -------
+        electrons_released : float
+            The number of released electrons.
+        """
+
+        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
+            return (
+                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
+                * np.exp(-time_elapsed / release_timescale)
+                * (1 - np.exp(-dwell_time / release_timescale))
+            )
+
+        return integrate.quad(
+            integrand,
+            0,
+            np.inf,
+            args=(
+                time_elapsed,
+                dwell_time,
+                self.release_timescale_mu,
+                self.release_timescale_sigma,
+            ),
+        )[0]
+
+
+class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
+    """ For a log-normal continuum distribution of release lifetimes. """
+
+    @staticmethod
+    def log_normal_distribution(x, median, sigma):
+        """ Return the log-normal probability density.
+            
+        Parameters
+        ----------
+        x : float 
+            The input value.
+            
+        median : float 
+            The median of the distribution.
+            
+        sigma : float 
+            The sigma of the distribution.
+            
+        Returns
+        --------
+        """
+        return np.exp(-((np.log(x) - np.log(median)) ** 2) / (2 * sigma ** 2)) / (
+            x * sigma * np.sqrt(2 * np.pi)
+        )
+
+    def __init__(
+        self, density, release_timescale_mu=None, release_timescale_sigma=None,
+    ):
+        """The parameters for a single trap species.
+
+        Parameters
+        ---------
+        density : float
+            The density of the trap species in a pixel.
+            
+        release_timescale_mu : float
+            The median release timescale of the traps.
+            
+        release_timescale_sigma : float
+            The sigma of release lifetimes of the traps.
+        """
+
+        super(TrapLogNormalLifetimeContinuum, self).__init__(
+            density=density,
+            distribution_of_traps_with_lifetime=self.log_normal_distribution,
+            release_timescale_mu=release_timescale_mu,
+            release_timescale_sigma=release_timescale_sigma,
+        )
-- 
2.43.0


From 20bded724278fdd776e8cd26e27929e0c1f217a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 21/21] fix: count every pump once with whole-number express
 multipliers

---
 arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 10dd073..3c2895a 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -870,8 +870,8 @@ class ROETrapPumping(ROEAbstract):
         # Make sure all values are integers, but still add up to the desired
         # number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            n_pumps_so_far = np.round(np.cumsum(express_multipliers)).astype(int)
+            express_multipliers = list(np.diff(n_pumps_so_far, prepend=0))
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0

