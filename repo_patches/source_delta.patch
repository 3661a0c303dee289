From 865644ed3b8b4999b89414732def4fa1dcdf7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 01/43] fix: divide by k! in the Taylor coefficients used for
 extrapolation

The quadratic, cubic and spline extrapolation of the coefficient time series
used the k-th derivative at the end point as polynomial coefficient.
---
 chaosmagpy/chaos.py | 6275 ++++++++++++++++++++++---------------------
 1 file changed, 3138 insertions(+), 3137 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..d8aadc2 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1,3137 +1,3138 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.chaos` provides classes and functions to read the CHAOS model and
-other geomagnetic field models.
-
-.. autosummary::
-    :toctree: classes
-    :template: myclass.rst
-
-    Base
-    BaseModel
-    CHAOS
-
-.. autosummary::
-    :toctree: functions
-
-    load_CHAOS_matfile
-    load_CHAOS_shcfile
-    load_CovObs_txtfile
-    load_gufm1_txtfile
-    load_CALS7K_txtfile
-    load_IGRF_txtfile
-
-"""
-
-import numpy as np
-import os
-import warnings
-import scipy.interpolate as sip
-import hdf5storage as hdf
-import h5py
-import textwrap
-import datetime
-from timeit import default_timer as timer
-from . import coordinate_utils as cu
-from . import model_utils as mu
-from . import data_utils as du
-from . import plot_utils as pu
-from . import config_utils
-
-
-class Base(object):
-    """
-    Piecewise polynomial base class.
-
-    """
-
-    def __init__(self, name, breaks=None, order=None, coeffs=None, meta=None):
-
-        self.name = str(name)
-
-        # ensure breaks is None or has 2 elements
-        if breaks is not None:
-            breaks = np.asarray(breaks, dtype=float)
-            if breaks.size == 1:
-                breaks = np.append(breaks, breaks)
-
-        self.breaks = breaks
-
-        self.pieces = None if breaks is None else int(breaks.size - 1)
-
-        if coeffs is None:
-            self.coeffs = coeffs
-            self.order = None if order is None else int(order)
-            self.dim = None
-
-        else:
-            coeffs = np.asarray(coeffs, dtype=float)
-
-            if order is None:
-                self.order = coeffs.shape[0]
-            else:
-                self.order = min(int(order), coeffs.shape[0])
-
-            self.coeffs = coeffs[-self.order:]
-            self.dim = coeffs.shape[-1]
-
-        self.meta = meta
-
-    def synth_coeffs(self, time, *, dim=None, deriv=None, extrapolate=None):
-        """
-        Compute the coefficients from the piecewise polynomial representation.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian date.
-        dim : int, positive, optional
-            Truncation value of the number of coefficients (no truncation by
-            default).
-        deriv : int, positive, optional
-            Derivative in time (None defaults to 0).
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the piecewise polynomial bounds.
-            Specify the polynomial degree as string or the order as an integer.
-            Defaults to ``'linear'`` (equiv. to order-2 polynomials).
-
-             +------------+---------------------------------------------------+
-             | Value      | Description                                       |
-             +============+===================================================+
-             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
-             +------------+---------------------------------------------------+
-             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
-             +------------+---------------------------------------------------+
-             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
-             +------------+---------------------------------------------------+
-             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
-             +------------+---------------------------------------------------+
-             | 'spline'   | Use all degree polynomials.                       |
-             +------------+---------------------------------------------------+
-             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
-             +------------+---------------------------------------------------+
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``dim``)
-            Array containing the coefficients.
-
-        """
-
-        if (self.coeffs is None) or (self.coeffs.size == 0):
-            raise ValueError(f'Coefficients of "{self.name}" are missing.')
-
-        # handle optional argument: dim
-        if dim is None:
-            dim = self.dim
-        elif dim > self.dim:
-            warnings.warn(
-                'Supplied dim = {0} is incompatible with number of '
-                'coefficients. Using dim = {1} instead.'.format(
-                    dim, self.dim))
-            dim = self.dim
-
-        if deriv is None:
-            deriv = 0
-
-        if extrapolate is None:
-            extrapolate = 'linear'  # linear extrapolation
-
-        # setting spline interpolation
-        PP = sip.PPoly.construct_fast(
-            self.coeffs[..., :dim].astype(float),
-            self.breaks.astype(float), extrapolate=True)
-
-        start = self.breaks[0]
-        end = self.breaks[-1]
-
-        if (np.amin(time) < start) or (np.amax(time) > end):
-
-            dkey = {
-                'linear': 2,
-                'quadratic': 3,
-                'cubic': 4,
-                'constant': 1,
-                'spline': self.order,
-                'off': 0
-            }
-
-            # convert extrapolation input to integer
-            if isinstance(extrapolate, bool):
-                key = 2 if extrapolate else 0
-
-            elif isinstance(extrapolate, str):
-                try:
-                    key = dkey[extrapolate]
-                except KeyError:
-                    string = '", "'.join([str(key) for key in dkey.keys()])
-                    raise ValueError(
-                        f'Unknown extrapolation method "{extrapolate}". Use '
-                        f'one of {{"{string}"}}.')
-
-            else:
-                key = int(extrapolate)  # ensure integer (if float, etc)
-
-            key = min(key, self.order)  # extrapolation at most equal to spline
-
-            if key == 0:
-                message = 'no'
-
-            else:
-                rev_dkey = {v: k for k, v in dkey.items()}
-                try:
-                    message = rev_dkey[key]
-                except KeyError:
-                    message = 'order-{key} spline'
-
-            warnings.warn("Requested coefficients are "
-                          "outside of the model time period from "
-                          f"{start} to {end} Modified Julian Date 2000. "
-                          f"Doing {message} extrapolation of the "
-                          "coefficient time series.")
-
-            if key > 0:
-                for x in [start, end]:  # left and right
-                    bin = np.zeros((self.order, 1, dim))
-                    for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
-                    PP.extend(bin, np.array([x]))
-
-            else:  # no extrapolation
-                PP.extrapolate = False
-
-        PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
-
-        return coeffs
-
-    def to_ppdict(self):
-        """
-        Return a dictionary of the piecewise polynomial that is compatible with
-        MATLAB's pp-form.
-
-        Returns
-        -------
-        pp : dict
-            Dictionary of the pp-form compatible with MATLAB. Elements are
-            NumPy arrays.
-
-        See Also
-        --------
-        Base.save_matfile
-
-        """
-
-        pp = dict(
-            form='pp',
-            order=np.array(self.order, float),
-            pieces=np.array(self.pieces, float),
-            dim=np.array(self.dim, float),
-            breaks=self.breaks.copy().reshape((1, -1)),  # ensure 2d
-            coefs=np.reshape(self.coeffs.copy(), (self.order, -1)).transpose()
-        )
-
-        return pp
-
-    def save_matfile(self, filepath, path=None):
-        """
-        Save piecewise polynomial as MAT-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Filepath and name of MAT-file.
-        path : str
-            Location in MAT-file. Defaults to ``'/pp'``.
-
-        See Also
-        --------
-        Base.to_ppdict
-
-        """
-
-        if path is None:
-            path = '/pp'
-
-        pp = self.to_ppdict()
-
-        hdf.write(pp, path=path, filename=filepath, matlab_compatible=True)
-
-
-class BaseModel(Base):
-    """
-    Class for piecewise polynomial spherical harmonic models.
-
-    Parameters
-    ----------
-    name : str
-        User specified name of the model.
-    breaks : ndarray, shape (m+1,)
-        Break points (`m` pieces plus one) for the piecewise polynomial
-        representation of the field model in modified Julian date format.
-        If a single break point is given, it is appended to itself to have two
-        points defining the model interval (single piece).
-    order : int, positive
-        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
-    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
-        Coefficients of the piecewise polynomial representation of the
-        field model.
-    source : {'internal', 'external'}
-        Internal or external source (defaults to ``'internal'``)
-    meta : dict, optional
-        Dictionary containing additional information about the model if
-        available.
-
-    Attributes
-    ----------
-    breaks : ndarray, shape (m+1,)
-        Break points (`m` pieces plus one) for the piecewise polynomial
-        representation of the field model in modified Julian date format.
-    pieces : int, positive
-        Number `m` of intervals given by break points in ``breaks``.
-    order : int, positive
-        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
-    nmax : int, positive
-        Maximum spherical harmonic degree of the field model.
-    dim : int, ``nmax`` * (``nmax`` + 2)
-        Dimension of the model.
-    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
-        Coefficients of the time-dependent field.
-    source : {'internal', 'external'}
-        Internal or external source (defaults to ``'internal'``)
-    meta : dict, optional
-        Dictionary containing additional information about the model if
-        available.
-
-    """
-
-    def __init__(self, name, breaks=None, order=None, coeffs=None,
-                 source=None, meta=None):
-        """
-        Initialize spherical harmonic model as a piecewise polynomial.
-
-        """
-
-        super().__init__(name, breaks=breaks, order=order, coeffs=coeffs,
-                         meta=meta)
-
-        if self.dim is None:
-            self.nmax = None
-        else:
-            self.nmax = int(np.sqrt(self.dim + 1) - 1)
-
-        self.source = 'internal' if source is None else source
-
-    def synth_coeffs(self, time, *, nmax=None, deriv=None, extrapolate=None):
-        """
-        Compute the coefficients from the piecewise polynomial representation.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-             +------------+---------------------------------------------------+
-             | Value      | Description                                       |
-             +============+===================================================+
-             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
-             +------------+---------------------------------------------------+
-             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
-             +------------+---------------------------------------------------+
-             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
-             +------------+---------------------------------------------------+
-             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
-             +------------+---------------------------------------------------+
-             | 'spline'   | Use all degree polynomials.                       |
-             +------------+---------------------------------------------------+
-             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
-             +------------+---------------------------------------------------+
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Array containing the coefficients.
-
-        """
-
-        dim = None if nmax is None else int(nmax*(nmax+2))
-        coeffs = super().synth_coeffs(time, dim=dim, deriv=deriv,
-                                      extrapolate=extrapolate)
-
-        return coeffs
-
-    def synth_values(self, time, radius, theta, phi, *, nmax=None,
-                     deriv=None, grid=None, extrapolate=None):
-        """
-        Compute magnetic components from the field model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian date.
-        radius : ndarray, shape (...) or float
-            Radius in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid.
-            Arrays ``theta`` and ``phi`` must have one dimension less than the
-            output grid since the grid will be created as their outer product.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        """
-
-        if nmax is None:
-            nmax = self.nmax
-        elif nmax > self.nmax:
-            warnings.warn(
-                f'Supplied nmax = {nmax} is incompatible with number of '
-                f'coefficients. Using nmax = {self.nmax} instead.'
-            )
-            nmax = self.nmax
-
-        coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,
-                                   extrapolate=extrapolate)
-
-        return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,
-                               source=self.source, grid=grid)
-
-    def power_spectrum(self, time, radius=None, **kwargs):
-        """
-        Compute the spatial power spectrum.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...)
-            Time in modified Julian date.
-        radius : float, optional
-            Radius in kilometers (defaults to Earth's surface defined in
-            ``basicConfig['r_surf']``).
-
-        Returns
-        -------
-        R_n : ndarray, shape (..., ``nmax``)
-            Spatial power spectrum of the spherical harmonic expansion up to
-            degree ``nmax``.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.synth_coeffs` method.
-
-        See Also
-        --------
-        chaosmagpy.model_utils.power_spectrum
-
-        """
-
-        if radius is None:
-            radius = config_utils.basicConfig['params.r_surf']
-
-        coeffs = self.synth_coeffs(time, **kwargs)
-        spec = mu.power_spectrum(coeffs, radius, source=self.source)
-
-        return spec
-
-    def plot_power_spectrum(self, time, **kwargs):
-        """
-        Plot the spatial power spectrum.
-
-        Parameters
-        ----------
-        time : float
-            Time in modified Julian date.
-
-        Other Parameters
-        ----------------
-        radius : float, optional
-            Radius in kilometers (defaults to Earth's surface defined in
-            basicConfig['r_surf']).
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.model_utils.power_spectrum
-
-        """
-
-        defaults = dict(radius=None,
-                        deriv=0,
-                        nmax=self.nmax,
-                        titles='spatial power spectrum')
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        radius = kwargs.pop('radius')
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-
-        units = f'({du.gauss_units(deriv)})$^2$'
-        kwargs.setdefault('ylabel', units)
-
-        R_n = self.power_spectrum(time, radius, nmax=nmax, deriv=deriv)
-
-        pu.plot_power_spectrum(R_n, **kwargs)
-
-    def plot_maps(self, time, radius, **kwargs):
-        """
-        Plot global maps of the field components.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time in modified Julian date.
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options are passed to :func:`plot_utils.plot_maps`
-            function.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.plot_utils.plot_maps
-
-        """
-
-        defaults = dict(deriv=0, nmax=self.nmax)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        # remove keywords that are not intended for pcolormesh
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
-
-        # add plot_maps options to dictionary
-        kwargs.setdefault('label', du.gauss_units(deriv))
-        kwargs.setdefault('titles', titles)
-
-        # handle optional argument: nmax > coefficient nmax
-        if nmax > self.nmax:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.nmax))
-            nmax = self.nmax
-
-        time = np.array(time, dtype=float)
-        theta = np.linspace(1, 179, num=320)
-        phi = np.linspace(-180, 180, num=640)
-
-        B_radius, B_theta, B_phi = self.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv,
-            grid=True, extrapolate=None)
-
-        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi, **kwargs)
-
-    def plot_timeseries(self, radius, theta, phi, **kwargs):
-        """
-        Plot the time series of the time-dependent field components at a
-        specific location.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (), (1,) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (), (1,) or float
-            Longitude in degrees.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
-            Extrapolate to times outside of the model bounds. Defaults to
-            ``'linear'``.
-        **kwargs : keywords
-            Other options to pass to :func:`plot_utils.plot_timeseries`
-            function.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.plot_utils.plot_timeseries
-
-        """
-
-        defaults = dict(deriv=0,
-                        nmax=self.nmax,
-                        titles=['$B_r$', '$B_\\theta$', '$B_\\phi$'],
-                        extrapolate=None)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        # remove keywords that are not intended for pcolormesh
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-        extrapolate = kwargs.pop('extrapolate')
-
-        # add options to dictionary
-        kwargs.setdefault('ylabel', du.gauss_units(deriv))
-
-        time = np.linspace(self.breaks[0], self.breaks[-1], num=500)
-
-        B_radius, B_theta, B_phi = self.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv,
-            extrapolate=extrapolate)
-
-        pu.plot_timeseries(time, B_radius, B_theta, B_phi, **kwargs)
-
-    @classmethod
-    def from_bspline(cls, name, knots, coeffs, order, source=None, meta=None):
-        """
-        Return BaseModel instance from a B-spline representation.
-
-        Parameters
-        ----------
-        name : str
-            User specified name of the model.
-        knots : ndarray, shape (N,)
-            B-spline knots. Knots must have endpoint multiplicity equal to
-            ``order``. Zero-pad ``coeffs`` if needed.
-        coeffs : ndarray, shape (M, D)
-            Bspline coefficients for the `M` B-splines parameterizing
-            `D` dimensions.
-        order : int
-            Order of the B-spline.
-        source : {'internal', 'external'}
-            Internal or external source (defaults to ``'internal'``)
-        meta : dict, optional
-            Dictionary containing additional information about the model.
-
-        Returns
-        -------
-        model : :class:`BaseModel`
-            Class :class:`BaseModel` instance.
-
-        """
-
-        coeffs_pp, breaks = mu.pp_from_bspline(coeffs, knots, order)
-
-        return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
-                   source=source, meta=meta)
-
-    def to_shc(self, filepath, *, leap_year=None, nmin=None, nmax=None,
-               header=None):
-        """
-        Save spherical harmonic coefficients to a file in `shc`-format.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of output file `*.shc`.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-        nmin : int, optional
-            Minimum spherical harmonic degree (defaults to 1). This will remove
-            first values from coeffs if greater than 1.
-        nmax : int, optional
-            Maximum spherical harmonic degree (defaults to the maximum degree
-            of the model given by ``self.nmax``).
-        header : str, optional
-            Optional header at beginning of file (defaults to a comment line
-            with the name of the model given by ``self.name``).
-
-        """
-
-        leap_year = False if leap_year is None else leap_year
-        header = f"# {self.name}\n" if header is None else header
-        nmin = 1 if nmin is None else int(nmin)
-        nmax = self.nmax if nmax is None else int(nmax)
-
-        if self.coeffs is None:
-            raise ValueError("Spline coefficients are missing.")
-
-        step = max(self.order - 1, 1)
-
-        # compute times in mjd2000
-        if (self.order == 1):
-            # piecewise constant, drop coefficients at last break point
-            times = self.breaks[:-1]
-
-        else:
-            # insert extra samples in between break points
-            times = np.array([], dtype=float)
-
-            for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
-
-            times = np.append(times, self.breaks[-1])
-
-        gauss_coeffs = self.synth_coeffs(times, nmax=self.nmax)
-
-        du.save_shcfile(times, gauss_coeffs, order=self.order,
-                        filepath=filepath, nmin=nmin, nmax=nmax,
-                        leap_year=leap_year, header=header)
-
-    @classmethod
-    def from_shc(cls, filepath, *, name=None, leap_year=None,
-                 source=None, meta=None):
-        """
-        Return BaseModel instance by loading a model from an SHC-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to SHC-file.
-        name : str, optional
-            User defined name of the model. Defaults to the filename without
-            the file extension.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-        source : {'internal', 'external'}
-            Internal or external source (defaults to ``'internal'``)
-        meta : dict, optional
-            Dictionary containing additional information about the model.
-
-        Returns
-        -------
-        model : :class:`BaseModel`
-            Class :class:`BaseModel` instance.
-
-        """
-
-        if name is None:
-            # get name without extension
-            name = os.path.splitext(os.path.basename(filepath))[0]
-
-        source = 'internal' if source is None else source
-        leap_year = False if leap_year is None else leap_year
-
-        time, coeffs, params = du.load_shcfile(filepath, leap_year=leap_year)
-
-        coeffs = coeffs.T  # (Nt, Nc): simplifies array manipulations
-
-        nmin = params['nmin']
-        nmax = params['nmax']
-        order = params['order']
-        step = max(params['step'], 1)
-
-        if order == 1:
-            # piecewise constant
-            # duplicate endpoint to have a proper interval for the polynomial
-            breaks = np.append(time, time[-1])  # zero length interval is ok
-        else:
-            breaks = time[::step]
-
-        # need to pad coefficients if nmin > 1 (no n < nmin coeffs in shc file)
-        if nmin > 1:
-            coeffs_pad = np.zeros((coeffs.shape[0], nmax*(nmax + 2)))
-            coeffs_pad[:, int(nmin**2 - 1):] = coeffs
-        else:
-            coeffs_pad = coeffs
-
-        if (order == 1):  # piecewise constant
-
-            coeffs_pp = coeffs_pad[None, ...]  # insert singleton at 0th axis
-
-            return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
-                       source=source, meta=meta)
-
-        else:  # model must be time-dependent (incl. piecewise constant)
-
-            # there may be extra sites to extend the model interval,
-            # but these extrapolation sites are just discarded here
-            end = ((time.size - 1) // step) * step + 1
-
-            knots = mu.augment_breaks(breaks, order)
-            spl = sip.make_lsq_spline(time[:end], coeffs_pad[:end, :],
-                                      knots, order - 1)
-            coeffs_pp = spl.c.copy()
-
-            # convert B-spline basis to PPoly
-            return cls.from_bspline(name, knots=knots, coeffs=coeffs_pp,
-                                    order=order, source=source, meta=meta)
-
-
-class CHAOS(object):
-    """
-    Class for the time-dependent geomagnetic field model CHAOS.
-
-    Parameters
-    ----------
-    breaks : ndarray, shape (m+1,)
-        Break points for piecewise polynomial representation of the
-        time-dependent internal (i.e. large-scale core) field in modified
-        Julian date format.
-    order : int, positive
-        Order `k` of polynomial pieces (e.g. 4 = cubic) of the time-dependent
-        internal field.
-    coeffs_tdep : ndarray, shape (`k`, `m`, ``n_tdep`` * (``n_tdep`` + 2))
-        Coefficients of the time-dependent internal field as piecewise
-        polynomial.
-    coeffs_static : ndarray,  shape (``n_static`` * (``n_static`` + 2),)
-        Coefficients of the static internal (i.e. small-scale crustal) field.
-    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
-        Coefficients of the static external field in SM coordinates.
-    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
-        Coefficients of the static external field in GSM coordinates.
-    breaks_delta : dict with ndarrays, shape (:math:`m_q` + 1,)
-        Breaks of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
-        Coefficients of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    breaks_euler : dict with ndarrays, shape (:math:`m_e` + 1,)
-        Dictionary containing satellite name as key and corresponding break
-        vectors of Euler angles (keys are ``'oersted'``, ``'champ'``,
-        ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``, ``'swarm_c'``,
-        ``'cryosat-2_1'``).
-    coeffs_euler : dict with ndarrays, shape (1, :math:`m_e`, 3)
-        Dictionary containing satellite name as key and arrays of the Euler
-        angles alpha, beta and gamma as trailing dimension (keys are
-        ``'oersted'``, ``'champ'``, ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``,
-        ``'swarm_c'``, ``'cryosat-2_1'``).
-    breaks_cal : dict with ndarrays, shape (:math:`m_c` + 1,)
-        Dictionary containing satellite name as key and corresponding break
-        vectors for the calibration parameters (keys are ``'cryosat-2_1'``).
-    coeffs_cal : dict with ndarrays, shape (1, :math:`m_c`, 3)
-        Dictionary containing satellite name as key and arrays of the 9 basic
-        calibration parameters (3 offsets, 3 sensitivities, 3
-        non-orthogonality angles) (keys are ``'cryosat-2_1'``).
-    name : str, optional
-        User defined name of the model. Defaults to ``'CHAOS'``.
-    meta : dict, optional
-        Dictionary containing additional information about the model.
-
-    Attributes
-    ----------
-    timestamp : str
-        UTC timestamp at initialization.
-    model_tdep : :class:`BaseModel` instance
-        Time-dependent internal field model.
-    model_static : :class:`BaseModel` instance
-        Static internal field model.
-    model_euler : dict of :class:`Base` instances
-        Dictionary containing the satellite's name as key and the Euler angles
-        as :class:`Base` class instance.
-    model_cal : dict of :class:`Base` instances
-        Dictionary containing the satellite's name as key and the calibration
-        parameters as :class:`Base` class instance.
-    n_sm : int, positive
-        Maximum spherical harmonic degree of external field in SM coordinates.
-    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
-        Coefficients of static external field in SM coordinates.
-    n_gsm : int, positive
-        Maximum spherical harmonic degree of external field in GSM coordinates.
-    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
-        Coefficients of static external field in GSM coordinates.
-    breaks_delta : dict with ndarrays, shape (:math:`m_q` +1,)
-        Breaks of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
-        Coefficients of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    name : str, optional
-        User defined name of the model.
-    meta : dict, optional
-        Dictionary containing additional information about the model.
-
-    Examples
-    --------
-    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-    directory like this:
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-    >>> print(model)
-
-    For more examples, see the documentation of the methods below.
-
-    """
-
-    def __init__(
-        self,
-        breaks,
-        order=None,
-        *,
-        coeffs_tdep=None,
-        coeffs_static=None,
-        coeffs_sm=None,
-        coeffs_gsm=None,
-        breaks_delta=None,
-        coeffs_delta=None,
-        breaks_euler=None,
-        coeffs_euler=None,
-        breaks_cal=None,
-        coeffs_cal=None,
-        name=None,
-        meta=None
-    ):
-        """
-        Initialize the CHAOS model.
-
-        """
-
-        self.timestamp = str(datetime.datetime.now(datetime.timezone.utc))
-
-        # give the model a name: CHAOS or user input
-        if name is None:
-            name = "CHAOS"
-
-        self.name = str(name)
-
-        # internal field
-        if coeffs_tdep is None:
-            self.model_tdep = None
-        else:
-            self.model_tdep = BaseModel(
-                name=name + '_tdep',
-                breaks=breaks,
-                order=order,
-                coeffs=coeffs_tdep,
-                source='internal'
-            )
-
-        if coeffs_static is None:
-            self.model_static = None
-        else:
-            self.model_static = BaseModel(
-                name=name + '_static',
-                breaks=breaks[[0, -1]],
-                order=1,
-                coeffs=coeffs_static,
-                source='internal'
-            )
-
-        # helper for returning the degree of the provided coefficients
-        def dimension(coeffs):
-            if coeffs is None:
-                return coeffs
-            else:
-                return int(np.sqrt(coeffs.shape[-1] + 1) - 1)
-
-        # external source in SM reference
-        self.coeffs_sm = coeffs_sm
-        self.n_sm = dimension(coeffs_sm)
-
-        # external source in GSM reference
-        self.coeffs_gsm = coeffs_gsm
-        self.n_gsm = dimension(coeffs_gsm)
-
-        # external source in SM reference: RC offset
-        self.breaks_delta = breaks_delta
-        self.coeffs_delta = coeffs_delta
-
-        # Euler angles
-        if breaks_euler is None:
-            self.model_euler = None
-        else:
-            satellites = tuple([*breaks_euler.keys()])
-            self.model_euler = dict()
-
-            for k, satellite in enumerate(satellites):
-
-                try:
-                    Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
-                    Euler_prerotation = None
-
-                model = Base(
-                    satellite,
-                    order=1,
-                    breaks=breaks_euler[satellite],
-                    coeffs=coeffs_euler[satellite],
-                    meta={
-                        'Euler_prerotation': Euler_prerotation
-                    }
-                )
-                self.model_euler[satellite] = model
-
-        # calibration parameters
-        if breaks_cal is None:
-            self.model_cal = None
-        else:
-            satellites = tuple([*breaks_cal.keys()])
-            self.model_cal = dict()
-
-            for k, satellite in enumerate(satellites):
-
-                model = Base(
-                    satellite,
-                    order=1,
-                    breaks=breaks_cal[satellite],
-                    coeffs=coeffs_cal[satellite],
-                )
-                self.model_cal[satellite] = model
-
-        self.meta = meta
-
-    def __call__(self, time, radius, theta, phi, rc_e=None, rc_i=None,
-                 source_list=None, nmax_static=None, verbose=None):
-        """
-        Calculate the magnetic field of all sources from the CHAOS model.
-
-        All sources means the time-dependent and static internal fields, and
-        the external magnetospheric (SM/GSM) fields including their
-        induced parts.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        rc_e : ndarray, shape (...), optional
-            External part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        rc_i : ndarray, shape (...), optional
-            Internal part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        source_list : list, ['tdep', 'static', 'gsm', 'sm'] or \
-str, {'internal', 'external'}
-            Specify sources in any order. Default is all sources. Instead of a
-            list, pass ``source_list='internal'`` which is equivalent to
-            ``source_list=['tdep', 'static']`` (internal sources) or
-            ``source_list='external'`` which is the same as
-            ``source_list=['gsm', 'sm']`` (external sources including induced
-            part).
-        nmax_static : int, optional
-            Maximum spherical harmonic degree of the static internal magnetic
-            field (defaults to 85).
-        verbose : {False, True}, optional
-            Print messages (defaults to ``False``).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> Br, Bt, Bp = model(0., 6371.2, 45., 0., source_list=['tdep', \
-'static'])  # only internal sources
-        >>> Br
-        array(-40418.23217586)
-
-        """
-
-        time = np.asarray(time, dtype=float)
-        radius = np.asarray(radius, dtype=float)
-        theta = np.asarray(theta, dtype=float)
-        phi = np.asarray(phi, dtype=float)
-
-        if source_list is None:
-            source_list = ['tdep', 'static', 'gsm', 'sm']
-
-        elif source_list == 'internal':
-            source_list = ['tdep', 'static']
-
-        elif source_list == 'external':
-            source_list = ['gsm', 'sm']
-
-        source_list = np.ravel(np.array(source_list))
-
-        verbose = bool(verbose)
-
-        # get shape of broadcasted result
-        try:
-            b = np.broadcast(time, radius, theta, phi)
-        except ValueError:
-            print('Cannot broadcast grid shapes:')
-            print(f'time:   {time.shape}')
-            print(f'radius: {radius.shape}')
-            print(f'theta:  {theta.shape}')
-            print(f'phi:    {phi.shape}')
-            raise
-
-        grid_shape = b.shape
-
-        B_radius = np.zeros(grid_shape)
-        B_theta = np.zeros(grid_shape)
-        B_phi = np.zeros(grid_shape)
-
-        if 'tdep' in source_list:
-
-            if verbose:
-                print(f'Computing time-dependent internal field'
-                      f' up to degree {self.model_tdep.nmax}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_tdep(
-                time, radius, theta, phi)
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'static' in source_list:
-
-            nmax_static = 85 if nmax_static is None else nmax_static
-
-            if verbose:
-                print(f'Computing static internal (i.e. small-scale crustal) '
-                      f'field up to degree {nmax_static}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_static(
-                radius, theta, phi, nmax=nmax_static)
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'gsm' in source_list:
-
-            if verbose:
-                print(f'Computing GSM field up to degree {self.n_gsm}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_gsm(
-                time, radius, theta, phi, source='all')
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'sm' in source_list:
-
-            if verbose:
-                print(f'Computing SM field up to degree {self.n_sm}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_sm(
-                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        return B_radius, B_theta, B_phi
-
-    def __str__(self):
-        """
-        Print model version and initialization timestamp.
-        """
-
-        string = (f"{self.name}: Initialized on {self.timestamp} UTC.")
-
-        return string
-
-    def synth_coeffs_tdep(self, time, *, nmax=None, **kwargs):
-        """
-        Compute the spherical harmonic coefficients of the time-dependent
-        internal magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.synth_coeffs`
-            method.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Coefficients of the time-dependent internal field.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-
-        >>> model.synth_coeffs_tdep(time, nmax=1)  # dipole coefficients
-        array([[-29614.72797782,  -1728.47079907,   5185.50518939],
-               [-29614.33800306,  -1728.13680075,   5184.89196286]])
-
-        >>> model.synth_coeffs_tdep(time, nmax=1, deriv=1)  # SV coefficients
-        array([[ 14.25577646,  12.20214856, -22.43412895],
-               [ 14.2317297 ,  12.19625726, -22.36146885]])
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        return self.model_tdep.synth_coeffs(time, nmax=nmax, **kwargs)
-
-    def synth_values_tdep(self, time, radius, theta, phi, *, nmax=None,
-                          deriv=None, grid=None, extrapolate=None):
-        """
-        Compute the vector components of the time-dependent internal
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (None defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid.
-            Arrays ``theta`` and ``phi`` must have one dimension less than the
-            output grid since the grid will be created as their outer product.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-
-        Compute magnetic field components at specific location.
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-40422.44815265, -40423.15091334])
-
-        Only dipole contribution:
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0., nmax=1)
-        >>> Br
-        array([-44325.97679843, -44324.95294588])
-
-        Secular variation:
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.,\
- deriv=1)
-        >>> Br
-        array([-25.64604374, -25.69002078])
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        return self.model_tdep.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv, grid=grid,
-            extrapolate=extrapolate)
-
-    def plot_timeseries_tdep(self, radius, theta, phi, **kwargs):
-        """
-        Plot the time series of the time-dependent internal field from the
-        CHAOS model at a given location.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (), (1,) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (), (1,) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.plot_timeseries`
-            method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        self.model_tdep.plot_timeseries(radius, theta, phi, **kwargs)
-
-    def plot_maps_tdep(self, time, radius, *, nmax=None, deriv=None, **kwargs):
-        """
-        Plot global map of the time-dependent internal field from the CHAOS
-        model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time given as MJD2000 (modified Julian date).
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.plot_maps` method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        self.model_tdep.plot_maps(time, radius, nmax=nmax,
-                                  deriv=deriv, **kwargs)
-
-    def synth_coeffs_static(self, *, nmax=None, **kwargs):
-        """
-        Compute the spherical harmonic coefficients of the static internal
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.synth_coeffs`
-            method.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (``nmax`` * (``nmax`` + 2),)
-            Coefficients of the static internal field.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_static(nmax=50)
-        array([ 0.     , 0.     ,  0.     , ...,  0.01655, -0.06339,  0.00715])
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        time = self.model_static.breaks[0]
-        return self.model_static.synth_coeffs(time, nmax=nmax, **kwargs)
-
-    def synth_values_static(self, radius, theta, phi, *, nmax=None, **kwargs):
-        """
-        Compute the vector components of the static internal magnetic field
-        from the CHAOS model.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.synth_values`
-            method.
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> Br, Bt, Bp = model.synth_values_static(6371.2, 45., 0., nmax=50)
-        >>> Br
-        array(-7.5608993)
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        time = self.model_static.breaks[0]
-        return self.model_static.synth_values(time, radius, theta, phi,
-                                              nmax=nmax, **kwargs)
-
-    def plot_maps_static(self, radius, *, nmax=None, **kwargs):
-        """
-        Plot global map of the static internal field from the CHAOS model.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.plot_maps`
-            method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        defaults = dict(cmap='nio',
-                        deriv=0,
-                        vmax=200,
-                        vmin=-200)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        time = self.model_static.breaks[0]
-
-        self.model_static.plot_maps(time, radius, nmax=nmax, **kwargs)
-
-    def synth_coeffs_gsm(self, time, *, nmax=None, source=None):
-        """
-        Compute the spherical harmonic coefficients of the far-magnetospheric
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in days.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'external', 'internal'}, optional
-            Choose source either external or internal (default is 'external').
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Spherical harmonic coefficients of the far-magnetospheric magnetic
-            field with respect to geographic coordinates (GEO).
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_gsm(0.0)
-        array([11.63982782, -4.9276483 , -2.36281582,  0.46063709, -0.37934517,
-               -0.18234297,  0.06281656,  0.07757099])
-
-        """
-
-        if self.coeffs_gsm is None:
-            raise ValueError("External GSM field coefficients are missing.")
-
-        # handle optional argument: nmax
-        if nmax is None:
-            nmax = self.n_gsm
-        elif nmax > self.n_gsm:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.n_gsm))
-            nmax = self.n_gsm
-
-        if source is None:
-            source = 'external'
-
-        # ensure ndarray input
-        time = np.asarray(time, dtype=float)
-
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
-
-        if np.amin(time) < start or np.amax(time) > end:
-            warnings.warn(
-                'Requested coefficients are outside of the '
-                f'model period from {start} to {end}. Doing linear '
-                'extrapolation of the coefficients in the GSM reference '
-                'frame.')
-
-        # build rotation matrix from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.GSM_spectrum'])
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            "GSM rotation coefficients not compatible with the chosen dipole."
-
-        if source == 'external':
-            # unpack file: oscillations per day, complex spectrum
-            frequency = frequency_spectrum['frequency']
-            spectrum = frequency_spectrum['spectrum']
-            scaled = frequency_spectrum['scaled']
-
-            # build rotation matrix for external field coefficients GSM -> GEO
-            rotate_gauss = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
-
-            # rotate external GSM coefficients to GEO reference
-            coeffs = np.matmul(rotate_gauss, self.coeffs_gsm)
-
-        elif source == 'internal':
-            # unpack file: oscillations per day, complex spectrum
-            frequency_ind = frequency_spectrum['frequency_ind']
-            spectrum_ind = frequency_spectrum['spectrum_ind']
-            scaled = frequency_spectrum['scaled']
-
-            # build rotation matrix for external field coefficients GSM -> GEO
-            rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency_ind, spectrum_ind, scaled=scaled)
-
-            # rotate internal GSM coefficients to GEO reference
-            coeffs = np.matmul(rotate_gauss_ind, self.coeffs_gsm)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''external'', ''internal''}.')
-
-        return coeffs[..., :nmax*(nmax+2)]
-
-    def synth_values_gsm(self, time, radius, theta, phi, *, nmax=None,
-                         source=None, grid=None):
-        """
-        Compute the vector components of the far-magnetospheric magnetic
-        field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        radius : float or ndarray, shape (...)
-            Array containing the radius in kilometers.
-        theta : float or ndarray, shape (...)
-            Array containing the colatitude in degrees
-            :math:`[0^\\circ,180^\\circ]`.
-        phi : float or ndarray, shape (...)
-            Array containing the longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            both added (default to 'all').
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid,
-            which is created from ``theta`` and ``phi`` as their outer product
-            (defaults to ``False``).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-        >>> Br, Bt, Bp = model.synth_values_gsm(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-8.18751916, -8.25661729])
-
-        """
-
-        source = 'all' if source is None else source
-        grid = False if grid is None else grid
-
-        if source == 'all':
-            coeffs_ext = self.synth_coeffs_gsm(time, nmax=nmax,
-                                               source='external')
-            coeffs_int = self.synth_coeffs_gsm(time, nmax=nmax,
-                                               source='internal')
-
-            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
-                coeffs_ext, radius, theta, phi, source='external', grid=grid)
-            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
-                coeffs_int, radius, theta, phi, source='internal', grid=grid)
-
-            B_radius = B_radius_ext + B_radius_int
-            B_theta = B_theta_ext + B_theta_int
-            B_phi = B_phi_ext + B_phi_int
-
-        elif source in ['external', 'internal']:
-            coeffs = self.synth_coeffs_gsm(time, nmax=nmax, source=source)
-            B_radius, B_theta, B_phi = mu.synth_values(
-                coeffs, radius, theta, phi, source=source, grid=grid)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        return B_radius, B_theta, B_phi
-
-    def synth_coeffs_sm(self, time, *, nmax=None, source=None, rc=None):
-        """
-        Compute the spherical harmonic coefficients of the near-magnetospheric
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in days.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'external', 'internal'}, optional
-            Choose source either external or internal (default is 'external').
-        rc : ndarray, shape (...), optional
-            External (internal) part of the RC-index (defaults to linearly
-            interpolating the hourly values given by the built-in RC-index
-            file). Use the external part of the RC-index for
-            ``source='external'`` (default) and the internal part for
-            ``source='internal'``. See also the notes section below for more
-            information on the RC-index file.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Spherical harmonic coefficients of the near-magnetospheric magnetic
-            field with respect to geographic coordinates (GEO).
-
-        Notes
-        -----
-        The computation of the near-magnetospheric field coefficients requires
-        the RC-index. If the values of the RC-index are not supplied
-        directly via the ``rc`` input argument, a built-in RC-index file is
-        loaded. This file goes with a specific version of the CHAOS model,
-        which can be inspected by running
-        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
-        session. It is recommended to use this version of the CHAOS model
-        together with the built-in RC-index.
-
-        For the latest CHAOS model, if necessary, a suitable RC-index file can
-        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
-        RC-index file by either providing interpolated values from the
-        downloaded file via the ``rc`` input argument, or by replacing
-        the path in ChaosMagPy's configuration dictionary
-        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
-        downloaded file (for more details, see Sect.
-        :ref:`sec-configuration-change-rc-index-file`).
-
-        See Also
-        --------
-        CHAOS.synth_values_sm
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_sm(0.)
-        array([53.20309271,  3.79138724, -8.59458138, -0.62818711,  1.45506171,
-               -0.57977672, -0.31660638, -0.43888236])
-
-        """
-
-        if self.coeffs_sm is None:
-            raise ValueError("External SM field coefficients are missing.")
-
-        # handle optional argument: nmax
-        if nmax is None:
-            nmax = self.n_sm
-        elif nmax > self.n_sm:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.n_sm))
-            nmax = self.n_sm
-
-        if source is None:
-            source = 'external'
-
-        # find smallest overlapping time period for breaks_delta
-        start = np.amax([self.breaks_delta['q10'][0],
-                         self.breaks_delta['q11'][0],
-                         self.breaks_delta['s11'][0]])
-        end = np.amin([self.breaks_delta['q10'][-1],
-                       self.breaks_delta['q11'][-1],
-                       self.breaks_delta['s11'][-1]])
-
-        # ensure ndarray input
-        time = np.asarray(time, dtype=float)
-
-        if np.amin(time) < start or np.amax(time) > end:
-            warnings.warn(
-                'Requested coefficients are outside of the '
-                f'model period from {start} to {end}. Doing linear '
-                'extrapolation of the coefficients in the SM reference frame.')
-
-        # load the Fourier spectrum of the coordinate transformation from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.SM_spectrum'])
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            ("Coefficients for the SM coordinate transformation are not " +
-             "compatible with the chosen dipole.")
-
-        if rc is None:
-
-            default = config_utils.basicConfig.defaults['file.RC_index'][0]
-            file = config_utils.basicConfig['file.RC_index']
-
-            if file == default:
-                warnings.warn(
-                    'ChaosMagPy is loading the built-in '
-                    'RC-index file recommended for '
-                    f'CHAOS-{config_utils.basicConfig["params.CHAOS_version"]}'
-                    '. If this is not the CHAOS model version that is being '
-                    'used here, consider changing the model and/or the '
-                    'built-in RC-index file '
-                    '(see https://chaosmagpy.readthedocs.io/en/'
-                    'master/configuration.html#change-rc-index-file '
-                    'on how to change the built-in file).'
-                )
-
-            # load RC-index file: first hdf5 then dat-file format
-            try:
-                with h5py.File(file, 'r') as f_RC:
-
-                    # create linear interpolant of the RC-index
-                    RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
-                                      kind='linear', bounds_error=False)
-
-            except OSError:
-                f_RC = du.load_RC_datfile(file)
-
-                # create linear interpolant of the RC-index
-                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
-                                  kind='linear', bounds_error=False)
-
-            # check RC bounds here to print specific error message
-            rc_below, rc_above = RC._check_bounds(time)
-
-            if rc_below.any() or rc_above.any():
-                raise ValueError("Requested coefficients are outside of the "
-                                 "period covered by the built-in RC-index "
-                                 "file. Either supply values of the RC-index "
-                                 "directly via the ``rc`` input argument or "
-                                 "provide the path to an extended RC-index "
-                                 "file by updating the path in "
-                                 "chaosmagpy.basicParams['file.RC_index'] "
-                                 "(see https://chaosmagpy.readthedocs.io/en/"
-                                 "master/configuration.html#change-rc-"
-                                 "index-file for details).")
-
-            rc = RC(time)  # interpolate RC-index
-
-        else:
-            rc = np.asarray(rc, dtype=float)  # use supplied index values
-
-        # use piecewise polynomials to evaluate baseline correction in bins
-        delta_q10 = sip.PPoly.construct_fast(
-            self.coeffs_delta['q10'].astype(float),
-            self.breaks_delta['q10'].astype(float), extrapolate=True)
-
-        delta_q11 = sip.PPoly.construct_fast(
-            self.coeffs_delta['q11'].astype(float),
-            self.breaks_delta['q11'].astype(float), extrapolate=True)
-
-        delta_s11 = sip.PPoly.construct_fast(
-            self.coeffs_delta['s11'].astype(float),
-            self.breaks_delta['s11'].astype(float), extrapolate=True)
-
-        # unpack file: oscillations per day, complex spectrum
-        frequency = frequency_spectrum['frequency']
-        spectrum = frequency_spectrum['spectrum']
-        scaled = frequency_spectrum['scaled']
-
-        # build rotation matrix for external field coefficients SM -> GEO
-        rotate_gauss = cu.synth_rotate_gauss(
-            time, frequency, spectrum, scaled=scaled)
-
-        if source == 'external':
-            coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
-
-            coeffs_sm[..., 0] = rc*self.coeffs_sm[0] + delta_q10(time)
-            coeffs_sm[..., 1] = rc*self.coeffs_sm[1] + delta_q11(time)
-            coeffs_sm[..., 2] = rc*self.coeffs_sm[2] + delta_s11(time)
-            coeffs_sm[..., 3:] = self.coeffs_sm[3:]
-
-            # rotate external SM coefficients to GEO reference
-            coeffs = np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
-
-        elif source == 'internal':
-            # unpack file: oscillations per day, complex spectrum
-            frequency = frequency_spectrum['frequency_ind']
-            spectrum = frequency_spectrum['spectrum_ind']
-
-            # build rotation matrix for induced coefficients SM -> GEO
-            rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
-
-            # take degree 1 matrix elements of unmodified rotation matrix
-            # since induction effect will be accounted for by RC_i
-            rotate_gauss = rotate_gauss[..., :3, :3]
-
-            coeffs_sm = np.empty(time.shape + (3,))
-
-            coeffs_sm[..., 0] = rc*self.coeffs_sm[0]
-            coeffs_sm[..., 1] = rc*self.coeffs_sm[1]
-            coeffs_sm[..., 2] = rc*self.coeffs_sm[2]
-
-            coeffs_sm_ind = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
-
-            coeffs_sm_ind[..., 0] = delta_q10(time)
-            coeffs_sm_ind[..., 1] = delta_q11(time)
-            coeffs_sm_ind[..., 2] = delta_s11(time)
-            coeffs_sm_ind[..., 3:] = self.coeffs_sm[3:]
-
-            # rotate internal SM coefficients to GEO reference
-            coeffs = np.einsum('...ij,...j', rotate_gauss_ind, coeffs_sm_ind)
-            coeffs[..., :3] += np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use one of {"external", "internal"}.')
-
-        return coeffs[..., :nmax*(nmax+2)]
-
-    def synth_values_sm(self, time, radius, theta, phi, *,
-                        rc_e=None, rc_i=None, nmax=None, source=None,
-                        grid=None):
-        """
-        Compute the vector components of the near-magnetospheric magnetic
-        field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        radius : float or ndarray, shape (...)
-            Array containing the radius in kilometers.
-        theta : float or ndarray, shape (...)
-            Array containing the colatitude in degrees
-            :math:`[0^\\circ,180^\\circ]`.
-        phi : float or ndarray, shape (...)
-            Array containing the longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            both added (default to 'all').
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid,
-            which is created from ``theta`` and ``phi`` as their outer product
-            (defaults to ``False``).
-        rc_e : ndarray, shape (...), optional
-            External part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        rc_i : ndarray, shape (...), optional
-            Internal part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Notes
-        -----
-        The computation of the near-magnetospheric field coefficients requires
-        the RC-index. If the values of the RC-index are not supplied
-        directly via the ``rc`` input argument, a built-in RC-index file is
-        loaded. This file goes with a specific version of the CHAOS model,
-        which can be inspected by running
-        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
-        session. It is recommended to use this version of the CHAOS model
-        together with the built-in RC-index.
-
-        For the latest CHAOS model, if necessary, a suitable RC-index file can
-        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
-        RC-index file by either providing interpolated values from the
-        downloaded file via the ``rc`` input argument, or by replacing
-        the path in ChaosMagPy's configuration dictionary
-        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
-        downloaded file (for more details, see Sect.
-        :ref:`sec-configuration-change-rc-index-file`).
-
-        See Also
-        --------
-        CHAOS.synth_values_sm
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-        >>> Br, Bt, Bp = model.synth_values_sm(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-18.85890361, -13.99893523])
-
-        """
-
-        source = 'all' if source is None else source
-        grid = False if grid is None else grid
-
-        if source == 'all':
-
-            coeffs_ext = self.synth_coeffs_sm(
-                time, nmax=nmax, source='external', rc=rc_e)
-            coeffs_int = self.synth_coeffs_sm(
-                time, nmax=nmax, source='internal', rc=rc_i)
-
-            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
-                coeffs_ext, radius, theta, phi, source='external', grid=grid)
-            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
-                coeffs_int, radius, theta, phi, source='internal', grid=grid)
-
-            B_radius = B_radius_ext + B_radius_int
-            B_theta = B_theta_ext + B_theta_int
-            B_phi = B_phi_ext + B_phi_int
-
-        elif source in ['external', 'internal']:
-
-            # set the RC-index
-            rc = rc_e if source == 'external' else rc_i
-
-            coeffs = self.synth_coeffs_sm(
-                time, nmax=nmax, source=source, rc=rc)
-            B_radius, B_theta, B_phi = mu.synth_values(
-                coeffs, radius, theta, phi, source=source, grid=grid)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        return B_radius, B_theta, B_phi
-
-    def plot_maps_external(self, time, radius, *, nmax=None, reference=None,
-                           source=None):
-        """
-        Plot global map of the external field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time given as MJD2000 (modified Julian date).
-        radius : ndarray, shape (), (1,) or float
-            Radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        reference : {'all', 'GSM', 'SM'}, optional
-            Choose contribution either from GSM, SM or the sum of both
-            (default).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            the sum of both (default).
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        reference = 'all' if reference is None else reference.lower()
-        source = 'all' if source is None else source.lower()
-
-        time = np.array(time, dtype=float)
-        radius = np.array(radius, dtype=float)
-        theta = np.linspace(1, 179, num=320)
-        phi = np.linspace(-180, 180, num=721)
-
-        # compute GSM contribution: external, internal
-        if reference == 'all' or reference == 'gsm':
-
-            # compute magnetic field components
-            B_radius_gsm, B_theta_gsm, B_phi_gsm = self.synth_values_gsm(
-                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
-
-        # compute SM contribution: external, internal
-        if reference == 'all' or reference == 'sm':
-
-            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(
-                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
-
-        if reference == 'all':
-            B_radius = B_radius_gsm + B_radius_sm
-            B_theta = B_theta_gsm + B_theta_sm
-            B_phi = B_phi_gsm + B_phi_sm
-        elif reference == 'gsm':
-            B_radius = B_radius_gsm
-            B_theta = B_theta_gsm
-            B_phi = B_phi_gsm
-        elif reference == 'sm':
-            B_radius = B_radius_sm
-            B_theta = B_theta_sm
-            B_phi = B_phi_sm
-        else:
-            raise ValueError(f'Unknown reference "{reference}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        units = du.gauss_units(0)
-
-        if reference == 'all':
-            titles = [f'$B_r$ ({source} sources)',
-                      f'$B_\\theta$ ({source} sources)',
-                      f'$B_\\phi$ ({source} sources)']
-        else:
-            titles = [f'$B_r$ ({reference.upper()} {source} sources)',
-                      f'$B_\\theta$ ({reference.upper()} {source} sources)',
-                      f'$B_\\phi$ ({reference.upper()} {source} sources)']
-
-        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi,
-                     titles=titles, label=units)
-
-    def synth_euler_angles(self, time, satellite, *, dim=None, deriv=None,
-                           extrapolate=None):
-        """
-        Extract Euler angles for specified satellite.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        satellite : str
-            Satellite from which to get the euler angles.
-        dim : int, positive, optional
-            Maximum dimension (default is 3, for the three angles alpha, beta,
-            gamma).
-        deriv : int, positive, optional
-            Derivative in time (default is 0).
-        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
-            Extrapolate to times outside of the model bounds. Defaults to
-            ``'linear'``.
-
-        Returns
-        -------
-        angles : ndarray, shape (..., 3)
-            Euler angles alpha, beta and gamma in degrees, stored in trailing
-            dimension.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> import numpy as np
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([500., 600.])
-        >>> model.meta['satellites']  # check satellite names
-        ('oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c')
-
-        >>> model.synth_euler_angles(time, 'champ')
-        array([[-0.05521985, -1.5763316 ,  0.48787601],
-               [-0.05440427, -1.57966925,  0.49043057]])
-
-        """
-
-        if satellite not in self.model_euler:
-            string = '", "'.join([*self.model_euler.keys()])
-            raise ValueError(
-                        f'Unknown satellite "{satellite}". Use '
-                        f'one of {{"{string}"}}.')
-
-        coeffs = self.model_euler[satellite].synth_coeffs(
-            time, dim=dim, deriv=deriv, extrapolate=extrapolate)
-
-        # add Euler prerotation angles if available in meta
-        pre = self.model_euler[satellite].meta['Euler_prerotation']
-        if pre is not None:
-            warnings.warn(f'Euler pre-rotation has not been applied. '
-                          f'The pre-rotation angles are {pre}.')
-
-        return coeffs
-
-    def save_shcfile(self, filepath, *, model=None, leap_year=None):
-        """
-        Save spherical harmonic coefficients to a file in `shc`-format.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of output file `*.shc`.
-        model : {'tdep', 'static'}, optional
-            Choose part of the model to save (default is 'tdep').
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-
-        """
-
-        model = 'tdep' if model is None else model
-
-        leap_year = False if leap_year is None else leap_year
-
-        if model == 'tdep':
-
-            if self.model_tdep is None:
-                raise ValueError("Time-dependent internal field coefficients "
-                                 "are missing.")
-
-            nmin = 1
-            nmax = self.model_tdep.nmax
-            order = self.model_tdep.order
-            pieces = self.model_tdep.breaks.size - 1
-            step = max(order - 1, 1)
-            np = pieces if order == 1 else (pieces * step + 1)
-
-            # create header lines
-            header = textwrap.dedent(f"""\
-                # {self.name}
-                # Spherical harmonic coefficients of the time-dependent
-                # internal field from degree {nmin} to {nmax}. Coefficients
-                # (units of nT) are given at {np} points in time and were
-                # extracted from a {order}-order piecewise polynomial. The
-                # break points are every {step} step(s) of the time sequence.
-                """)
-
-            self.model_tdep.to_shc(
-                filepath,
-                leap_year=leap_year,
-                nmin=nmin,
-                header=header
-            )
-
-        # output static field model coefficients
-        if model == 'static':
-
-            if self.model_static is None:
-                raise ValueError("Static internal field coefficients "
-                                 "are missing.")
-
-            nmin = self.model_tdep.nmax + 1
-            nmax = self.model_static.nmax
-            order = 1
-
-            # create additonal header lines
-            header = textwrap.dedent(f"""\
-                # {self.name}
-                # Spherical harmonic coefficients (units of nT) of the static
-                # internal field model from degree {nmin} to {nmax}. Given at
-                # the first break point.
-                """)
-
-            self.model_static.to_shc(
-                filepath,
-                leap_year=leap_year,
-                nmin=nmin,
-                header=header
-            )
-
-    def save_matfile(self, filepath):
-        """
-        Save CHAOS model to a MAT-file.
-
-        The model must be fully specified as is the case if originally loaded
-        from a MAT-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of MAT-file that is to be saved.
-
-        """
-
-        # write time-dependent internal field model to matfile
-        if self.model_tdep:
-            self.model_tdep.save_matfile(filepath)
-
-        if self.coeffs_delta:
-            # write time-dependent external field model to matfile
-            q10 = self.coeffs_delta['q10'].reshape((-1, 1))
-            q11 = np.ravel(self.coeffs_delta['q11'])
-            s11 = np.ravel(self.coeffs_delta['s11'])
-            qs11 = np.stack((q11, s11), axis=-1)
-
-            t_break_q10 = self.breaks_delta['q10'].reshape(
-                (-1, 1)).astype(float)
-            t_break_q11 = self.breaks_delta['q11'].reshape(
-                (-1, 1)).astype(float)
-
-            m_sm = np.array([np.mean(q10), np.mean(q11), np.mean(s11)])
-            m_sm = np.append(m_sm, self.coeffs_sm[3:]).reshape((-1, 1))
-
-            m_Dst = self.coeffs_sm[:3].reshape((3, 1))
-
-            # process gsm coefficients
-            m_gsm = self.coeffs_gsm[[0, 3]].reshape((2, 1))
-
-            model_ext = dict(
-                t_break_q10=t_break_q10,
-                q10=q10,
-                t_break_qs11=t_break_q11,
-                qs11=qs11,
-                m_sm=m_sm,
-                m_gsm=m_gsm,
-                m_Dst=m_Dst
-            )
-
-            hdf.write(model_ext, path='/model_ext', filename=filepath,
-                      matlab_compatible=True)
-
-        if self.model_euler:
-            # write Euler angles to matfile for each satellite
-            satellites = self.meta['satellites']
-
-            t_break_Euler = []  # list of Euler angle breaks for satellites
-            alpha = []  # list of alpha for each satellite
-            beta = []  # list of beta for each satellite
-            gamma = []  # list of gamma for each satellite
-            for satellite in satellites:
-
-                # reduce breaks if start and end are equal
-                breaks = self.model_euler[satellite].breaks
-                if breaks[0] == breaks[-1]:
-                    breaks = breaks[0]
-
-                t_break_Euler.append(breaks.reshape((-1, 1)).astype(float))
-                alpha.append(self.model_euler[satellite].coeffs[
-                    0, :, 0].reshape((-1, 1)).astype(float))
-                beta.append(self.model_euler[satellite].coeffs[
-                    0, :, 1].reshape((-1, 1)).astype(float))
-                gamma.append(self.model_euler[satellite].coeffs[
-                    0, :, 2].reshape((-1, 1)).astype(float))
-
-            hdf.write(np.array(t_break_Euler, dtype='object'),
-                      path='/model_Euler/t_break_Euler/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
-                      path='/model_Euler/alpha/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
-                      path='/model_Euler/beta/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
-                      path='/model_Euler/gamma/',
-                      filename=filepath, matlab_compatible=True)
-
-        if self.model_cal:
-            # write calibration parameters to matfile for each satellite
-            cal = []
-            for satellite, model in self.model_cal.items():
-                cal.append(model.to_ppdict())
-
-            hdf.write(np.array(cal, dtype=object),
-                      path='/pp_CAL/',
-                      filename=filepath, matlab_compatible=True)
-
-        if self.model_static:
-            # write static internal field model to matfile
-            g = np.ravel(self.model_static.coeffs).reshape((-1, 1))
-
-            hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
-
-        if self.meta:
-            hdf.write(self.meta['params'], path='/params', filename=filepath,
-                      matlab_compatible=True)
-
-        print('CHAOS saved to {}.'.format(
-            os.path.join(os.getcwd(), filepath)))
-
-    @classmethod
-    def from_mat(self, filepath, name=None, satellites=None):
-        """
-        Alternative constructor for creating a :class:`CHAOS` class instance.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to MAT-file containing the CHAOS model.
-        name : str, optional
-            User defined name of the model. Defaults to the filename without
-            the file extension.
-        satellites : list of strings, optional
-            List of satellite names whose Euler angles are stored in the
-            MAT-file. This is needed for correct referencing as this
-            information is not given in the standard CHAOS MAT-file format
-            (defaults to ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
-            'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
-
-        Returns
-        -------
-        model : :class:`CHAOS` instance
-            Fully initialized model.
-
-        Examples
-        --------
-        Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-        directory like this:
-
-        >>> from chaosmagpy import CHAOS
-        >>> model = CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> print(model)
-
-        See Also
-        --------
-        load_CHAOS_matfile
-
-        """
-
-        return load_CHAOS_matfile(filepath, name=name, satellites=satellites)
-
-    @classmethod
-    def from_shc(self, filepath, *, name=None, leap_year=None):
-        """
-        Alternative constructor for creating a :class:`CHAOS` class instance.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to SHC-file.
-        name : str, optional
-            User defined name of the model. Defaults to ``'CHAOS-<version>'``,
-            where <version> is the default in
-            ``basicConfig['params.version']``.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-
-        Returns
-        -------
-        model : :class:`CHAOS` instance
-            Class instance with either the time-dependent or static internal
-            part initialized.
-
-        Examples
-        --------
-        Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
-        working directory, containing the coefficients of time-dependent
-        internal part of the CHAOS-6-x7 model.
-
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_shc('CHAOS-6-x7_tdep.shc')
-        >>> print(model)
-
-        See Also
-        --------
-        load_CHAOS_shcfile
-
-        """
-
-        leap_year = False if leap_year is None else leap_year
-
-        return load_CHAOS_shcfile(filepath, name=name, leap_year=leap_year)
-
-
-def load_CHAOS_matfile(filepath, name=None, satellites=None):
-    """
-    Load CHAOS model from MAT-file.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to MAT-file containing the CHAOS model.
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-    satellites : list of strings, optional
-        List of satellite names whose Euler angles are stored in the MAT-file.
-        This is needed for correct referencing as this information is not
-        given in the standard CHAOS MAT-file format (defaults to
-        ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
-        'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
-
-    Returns
-    -------
-    model : :class:`CHAOS` instance
-        Fully initialized model.
-
-    Examples
-    --------
-    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-    directory like this:
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-    >>> print(model)
-
-    Compute the Gauss coefficients of the time-dependent internal field on
-    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
-    date:
-
-    >>> cp.data_utils.mjd2000(2018, 1, 1)
-    6575.0
-
-    Now, compute the Gauss coefficients:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575.)
-    >>> coeffs
-    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
-
-    Compute only the dipolar part by restricting the spherical harmonic degree
-    with the help of the ``nmax`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
-    >>> coeffs
-    array([-29417.21325337,  -1466.70696158,   4705.96297947])
-
-    Compute the first time derivative of the internal Gauss coefficients in
-    nT/yr with the help of the ``deriv`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
-    >>> coeffs
-    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
-
-    Compute values of the time-dependent internal magnetic field on
-    January 1, 2018 at 0:00 UTC at
-    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
-    (:math:`r=6371.2` km):
-
-    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
-6575., 6371.2, 90., 0.)
-    >>> B_theta
-    array(-27642.31732596)
-
-    See Also
-    --------
-    CHAOS, load_CHAOS_shcfile
-
-    """
-
-    filepath = str(filepath)
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    # define satellite names
-    if satellites is None:
-        satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
-                      'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
-
-    mat_contents = du.load_matfile(filepath)
-
-    pp = mat_contents['pp']
-
-    order = int(pp['order'])
-    pieces = int(pp['pieces'])
-    dim = int(pp['dim'])
-    breaks = pp['breaks']
-    coefs = pp['coefs']
-
-    # reshaping coeffs_tdep from 2-D to 3-D: (order, pieces, coefficients)
-    coeffs_tdep = coefs.transpose().reshape((order, pieces, dim))
-
-    # load the static internal field model
-    try:
-        coeffs_static = mat_contents['g'].reshape((1, 1, -1))
-
-    except KeyError as err:
-        warnings.warn(f'Missing static internal field coefficients: {err}')
-        coeffs_static = None
-
-    # load the external field model
-    try:
-        model_ext = mat_contents['model_ext']
-
-    except KeyError as err:
-        warnings.warn(f'Missing external field coefficients: {err}')
-        coeffs_delta = None
-        breaks_delta = None
-        coeffs_gsm = None
-        coeffs_sm = None
-
-    else:
-        # external field (SM): n=1, 2 (n=1 are sm offset time averages!)
-        coeffs_sm = np.copy(model_ext['m_sm'])
-        coeffs_sm[:3] = model_ext['m_Dst']  # replace with m_Dst
-
-        # external field (GSM): n=1, 2
-        n_gsm = int(2)
-        coeffs_gsm = np.zeros((n_gsm*(n_gsm+2),))  # correct number of coeffs
-        # only m=0 are non-zero
-        coeffs_gsm[[0, 3]] = model_ext['m_gsm']
-
-        # coefficients and breaks of external SM offsets for q10, q11, s11
-        breaks_delta = dict()
-        breaks_delta['q10'] = model_ext['t_break_q10']
-        breaks_delta['q11'] = model_ext['t_break_qs11']
-        breaks_delta['s11'] = model_ext['t_break_qs11']
-
-        # reshape to comply with scipy PPoly coefficients
-        coeffs_delta = dict()
-        coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
-        coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
-        coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
-
-    # load euler angles
-    try:
-        model_euler = mat_contents['model_Euler']
-
-    except KeyError as err:
-        warnings.warn(f'Missing Euler angles: {err}')
-        coeffs_euler = None
-        breaks_euler = None
-
-    else:
-        # append generic satellite name if more data available or reduce
-        t_break_Euler = model_euler['t_break_Euler']
-        n = len(t_break_Euler)
-        m = len(satellites)
-
-        if n < m:
-            satellites = satellites[:n]
-        elif n > m:
-            for counter in range(m+1, n+1):
-                satellites.append(f'satellite_{counter}')
-
-        # coefficients and breaks of euler angles
-        breaks_euler = dict()
-        for num, satellite in enumerate(satellites):
-            breaks_euler[satellite] = t_break_Euler[num].squeeze()
-
-        coeffs_euler = dict()
-        for num, satellite in enumerate(satellites):
-
-            angles = [model_euler[angle][num] for angle in [
-                'alpha', 'beta', 'gamma']]
-            euler = np.concatenate(angles, axis=-1).astype(float)
-
-            # first: order, second: number of intervals, third: 3 angles
-            coeffs_euler[satellite] = np.expand_dims(euler, axis=0)
-
-    # load calibration parameters
-    try:
-        model_cal = mat_contents['pp_CAL']
-
-    except KeyError as err:
-        warnings.warn(f'Missing calibration parameters: {err}')
-        breaks_cal = None
-        coeffs_cal = None
-
-    else:
-        # only support of single satellite
-        breaks_cal = {'cryosat-2_1': model_cal['breaks']}
-        coeffs_cal = {'cryosat-2_1': model_cal['coefs'].reshape((1, -1, 9))}
-
-    # load additional parameters
-    try:
-        params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
-
-    except KeyError as err:
-        warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-        dict_params = {'Euler_prerotation': None}
-
-    meta = dict(params=dict_params,
-                satellites=tuple(satellites))
-
-    model = CHAOS(breaks=breaks,
-                  order=order,
-                  coeffs_tdep=coeffs_tdep,
-                  coeffs_static=coeffs_static,
-                  coeffs_sm=coeffs_sm,
-                  coeffs_gsm=coeffs_gsm,
-                  breaks_delta=breaks_delta,
-                  coeffs_delta=coeffs_delta,
-                  breaks_euler=breaks_euler,
-                  coeffs_euler=coeffs_euler,
-                  breaks_cal=breaks_cal,
-                  coeffs_cal=coeffs_cal,
-                  name=name,
-                  meta=meta)
-
-    return model
-
-
-def load_CHAOS_shcfile(filepath, name=None, leap_year=None):
-    """
-    Load CHAOS model from SHC-file.
-
-    The file should contain the coefficients of the time-dependent or static
-    internal part of the CHAOS model. In case of the time-dependent part, a
-    reconstruction of the piecewise polynomial is performed.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to SHC-file.
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-    leap_year : {False, True}, optional
-        Take leap year in time conversion into account. By default set to
-        ``False``, so that a conversion factor of 365.25 days per year is
-        used.
-
-    Returns
-    -------
-    model : :class:`CHAOS` instance
-        Class instance with either the time-dependent or static internal part
-        initialized.
-
-    Examples
-    --------
-    Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
-    working directory, containing the coefficients of time-dependent internal
-    part of the CHAOS-6-x7 model.
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.load_CHAOS_shcfile('CHAOS-6-x7_tdep.shc')
-    >>> print(model)
-
-    Compute the Gauss coefficients of the time-dependent internal field on
-    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
-    date:
-
-    >>> cp.data_utils.mjd2000(2018, 1, 1)
-    6575.0
-
-    Now, compute the Gauss coefficients:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575.)
-    >>> coeffs
-    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
-
-    Compute only the dipolar part by restricting the spherical harmonic degree
-    with the help of the ``nmax`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
-    >>> coeffs
-    array([-29417.21325337,  -1466.70696158,   4705.96297947])
-
-    Compute the first time derivative of the internal Gauss coefficients in
-    nT/yr with the help of the ``deriv`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
-    >>> coeffs
-    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
-
-    Compute values of the time-dependent internal magnetic field on
-    January 1, 2018 at 0:00 UTC at
-    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
-    (:math:`r=6371.2` km):
-
-    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
-6575., 6371.2, 90., 0.)
-    >>> B_theta
-    array(-27642.31732596)
-
-    See Also
-    --------
-    CHAOS, load_CHAOS_matfile
-
-    """
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    leap_year = False if leap_year is None else bool(leap_year)
-
-    # create dummy BaseModel since there is no entry point to directly modify
-    # CHAOS.model_tdep or CHAOS.model_static at the moment
-    model = BaseModel.from_shc(filepath, name=name, leap_year=leap_year)
-
-    if (model.pieces == 1) and (model.order == 1):  # static in single bin
-
-        return CHAOS(
-            breaks=model.breaks,
-            coeffs_static=model.coeffs,
-            name=model.name
-        )
-
-    else:  # must be time-dependent, incl. piecewise constant
-
-        return CHAOS(
-            breaks=model.breaks,
-            order=model.order,
-            coeffs_tdep=model.coeffs,
-            name=model.name
-        )
-
-
-def load_CovObs_txtfile(filepath, name=None):
-    """
-    Load the ensemble mean of the internal model from the COV-OBS
-    TXT-file in spline format.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to spline-formatted TXT-file (not part of ChaosMagPy).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    For details on the COV-OBS model (COV-OBS.x2), see the original
-    publication:
-
-    Huder, L., Gillet, N., Finlay, C. C., Hammer, M. D. and H. Tchoungui
-    (2020), "COV-OBS.x2: 180 yr of geomagnetic field evolution from
-    ground-based and satellite observations", Earth, Planets and Space.
-
-    Examples
-    --------
-    Load the ensemble mean internal model and plot the degree-1 secular
-    variation. Here, the model parameter file, e.g. "COV-OBS.x2-int", is in
-    the current working directory.
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_CovObs_txtfile('COV-OBS.x2-int')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        # sample model timespan
-        time = np.linspace(1840., 2020., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
-
-        ax.plot(cp.data_utils.timestamp(time), coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('Time (years)')
-        ax.set_ylabel('nT/yr')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.readlines()
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    tmp = np.fromstring(lines[1], sep=' ')  # read parameters and breaks
-
-    nmax = int(tmp[0])
-    order = int(tmp[2])
-    degree = order - 1  # polynomial degree
-
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)
-
-    # add endpoint multiplicity to conform with scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    data = np.fromstring(' '.join(lines[2:]), sep=' ')
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data.reshape(
-        (breaks.size - order, nmax * (nmax + 2)))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_gufm1_txtfile(filepath, name=None):
-    """
-    Load model parameter file of the gufm1 model.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to TXT-file (provided by the modellers).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    For details on the gufm1 model, see the original publication:
-
-    Andrew Jackson, Art R. T. Jonkers and Matthew R. Walker (2000),
-    "Four centuries of geomagnetic secular variation from historical records",
-    Phil. Trans. R. Soc. A.358957–990, http://doi.org/10.1098/rsta.2000.0569
-
-    Examples
-    --------
-    Load the model and plot the degree-1 secular variation. Here, the
-    model parameter file, e.g. "gufm1", is in the current working directory.
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_gufm1_txtfile('gufm1')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        # sample model timespan 7.5 years away from endpoints
-        time = np.linspace(1590., 1990., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('Time (years)')
-        ax.set_ylabel('nT/yr')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.readlines()
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    data = np.fromstring('  '.join(lines[1:]), sep=' ')
-
-    nmax = int(data[0])
-    order = 4  # hard-coded since not really provided in file
-    nbreaks = int(data[1]) + order  # data[1] is number of B-spline functions?
-    degree = order - 1  # polynomial degree
-
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(data[2:(nbreaks + 2)], leap_year=False)
-
-    # add endpoint multiplicity to "trick" scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(
-        (breaks.size - order, nmax * (nmax + 2)))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_CALS7K_txtfile(filepath, name=None):
-    """
-    Load the model parameter file of the CALS7K model.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to TXT-file (available from the modellers).
-    name : str, optional
-        User defined name of the model. Defaults to the filename.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    More information about the model and a list of relevant publications can be
-    found at `<https://igppweb.ucsd.edu/~cathy/Projects/Holocene/CALS7K/>`_.
-    The model coefficients file can be downloaded from
-    `<https://earthref.org/ERDA/413/>`_.
-
-    Examples
-    --------
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_CALS7K_txtfile('CALS7K.2')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        time = np.linspace(-5000., 1950., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('years')
-        ax.set_ylabel('nT')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.read()  # read everything as a continuous string
-
-    if name is None:
-        # get name with extension
-        name = os.path.basename(filepath)
-
-    # numpy doesn't understand "D" in decimal representation, replace with E
-    data = np.fromstring(lines.replace('D', 'E'), sep=' ', dtype=float)
-
-    # ts = data[0]  # start time
-    # te = data[1]  # end time
-    order = data[2]  # cubic B-splines
-    # discard index 3
-    nmax = int(data[4])  # maximum spherical harmonic degree
-    # discard index 5
-    inspl = int(data[6])  # number of inner B-spline segments
-
-    dim = nmax*(nmax+2)  # number of spherical harmonic coefficients
-    order = 4  # cubic splines
-    degree = order - 1  # polynomial degree
-    nbreaks = inspl + order  # number of breaks
-
-    breaks = data[7:(7+nbreaks)]
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(breaks, leap_year=False)
-
-    # add endpoint multiplicity to "trick" scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, dim))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data[(7+nbreaks):].reshape(
-        (breaks.size - order, dim))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_IGRF_txtfile(filepath, name=None):
-    """
-    Load the IGRF internal field model from the TXT-file with the
-    piecewise-polynomial coefficients.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to the IGRF TXT-file (not part of ChaosMagPy).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    The latest IGRF coefficients can be downloaded at
-    `<https://www.ncei.noaa.gov/products/international-geomagnetic-reference-field>`_.
-
-    Notes
-    -----
-    The field is linearly extrapolated in the 5-year period at the
-    end of the model time interval (i.e. in the period 2020-2025 for IGRF-13)
-    using the predictive secular variation in the IGRF.
-
-    Examples
-    --------
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_IGRF_txtfile('irgf13coeffs.txt')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        time = np.linspace(1900., 2020., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=True)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('years')
-        ax.set_ylabel('nT')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    first_line = True
-    data = np.array([])
-
-    with open(filepath, 'r') as f:
-        for line in f.readlines():
-
-            if line.lstrip().startswith(('#', 'c/s')):
-                continue
-
-            tmp = line.split()  # also splits consecutive whitespaces
-
-            if first_line:  # first non-comment line contains breaks
-                breaks = np.array(tmp[3:-1], dtype=float)
-                breaks = np.append(breaks, breaks[-1] + 5.)
-
-                first_line = False
-
-            else:
-                newline = np.array(tmp[3:], dtype=float)  # strip degree/order
-                data = np.append(data, newline)
-
-    data = np.reshape(data, (-1, breaks.size))
-    data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
-    coeffs = data.T
-
-    order = 2
-    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=True)
-    knots = mu.augment_breaks(breaks_mjd, order)
-
-    model = BaseModel.from_bspline(name, knots, coeffs, order,
-                                   source='internal')
-
-    return model
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.chaos` provides classes and functions to read the CHAOS model and
+other geomagnetic field models.
+
+.. autosummary::
+    :toctree: classes
+    :template: myclass.rst
+
+    Base
+    BaseModel
+    CHAOS
+
+.. autosummary::
+    :toctree: functions
+
+    load_CHAOS_matfile
+    load_CHAOS_shcfile
+    load_CovObs_txtfile
+    load_gufm1_txtfile
+    load_CALS7K_txtfile
+    load_IGRF_txtfile
+
+"""
+
+import numpy as np
+import os
+import warnings
+import scipy.interpolate as sip
+import hdf5storage as hdf
+import h5py
+import textwrap
+import datetime
+from math import factorial
+from timeit import default_timer as timer
+from . import coordinate_utils as cu
+from . import model_utils as mu
+from . import data_utils as du
+from . import plot_utils as pu
+from . import config_utils
+
+
+class Base(object):
+    """
+    Piecewise polynomial base class.
+
+    """
+
+    def __init__(self, name, breaks=None, order=None, coeffs=None, meta=None):
+
+        self.name = str(name)
+
+        # ensure breaks is None or has 2 elements
+        if breaks is not None:
+            breaks = np.asarray(breaks, dtype=float)
+            if breaks.size == 1:
+                breaks = np.append(breaks, breaks)
+
+        self.breaks = breaks
+
+        self.pieces = None if breaks is None else int(breaks.size - 1)
+
+        if coeffs is None:
+            self.coeffs = coeffs
+            self.order = None if order is None else int(order)
+            self.dim = None
+
+        else:
+            coeffs = np.asarray(coeffs, dtype=float)
+
+            if order is None:
+                self.order = coeffs.shape[0]
+            else:
+                self.order = min(int(order), coeffs.shape[0])
+
+            self.coeffs = coeffs[-self.order:]
+            self.dim = coeffs.shape[-1]
+
+        self.meta = meta
+
+    def synth_coeffs(self, time, *, dim=None, deriv=None, extrapolate=None):
+        """
+        Compute the coefficients from the piecewise polynomial representation.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian date.
+        dim : int, positive, optional
+            Truncation value of the number of coefficients (no truncation by
+            default).
+        deriv : int, positive, optional
+            Derivative in time (None defaults to 0).
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the piecewise polynomial bounds.
+            Specify the polynomial degree as string or the order as an integer.
+            Defaults to ``'linear'`` (equiv. to order-2 polynomials).
+
+             +------------+---------------------------------------------------+
+             | Value      | Description                                       |
+             +============+===================================================+
+             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
+             +------------+---------------------------------------------------+
+             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
+             +------------+---------------------------------------------------+
+             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
+             +------------+---------------------------------------------------+
+             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
+             +------------+---------------------------------------------------+
+             | 'spline'   | Use all degree polynomials.                       |
+             +------------+---------------------------------------------------+
+             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
+             +------------+---------------------------------------------------+
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``dim``)
+            Array containing the coefficients.
+
+        """
+
+        if (self.coeffs is None) or (self.coeffs.size == 0):
+            raise ValueError(f'Coefficients of "{self.name}" are missing.')
+
+        # handle optional argument: dim
+        if dim is None:
+            dim = self.dim
+        elif dim > self.dim:
+            warnings.warn(
+                'Supplied dim = {0} is incompatible with number of '
+                'coefficients. Using dim = {1} instead.'.format(
+                    dim, self.dim))
+            dim = self.dim
+
+        if deriv is None:
+            deriv = 0
+
+        if extrapolate is None:
+            extrapolate = 'linear'  # linear extrapolation
+
+        # setting spline interpolation
+        PP = sip.PPoly.construct_fast(
+            self.coeffs[..., :dim].astype(float),
+            self.breaks.astype(float), extrapolate=True)
+
+        start = self.breaks[0]
+        end = self.breaks[-1]
+
+        if (np.amin(time) < start) or (np.amax(time) > end):
+
+            dkey = {
+                'linear': 2,
+                'quadratic': 3,
+                'cubic': 4,
+                'constant': 1,
+                'spline': self.order,
+                'off': 0
+            }
+
+            # convert extrapolation input to integer
+            if isinstance(extrapolate, bool):
+                key = 2 if extrapolate else 0
+
+            elif isinstance(extrapolate, str):
+                try:
+                    key = dkey[extrapolate]
+                except KeyError:
+                    string = '", "'.join([str(key) for key in dkey.keys()])
+                    raise ValueError(
+                        f'Unknown extrapolation method "{extrapolate}". Use '
+                        f'one of {{"{string}"}}.')
+
+            else:
+                key = int(extrapolate)  # ensure integer (if float, etc)
+
+            key = min(key, self.order)  # extrapolation at most equal to spline
+
+            if key == 0:
+                message = 'no'
+
+            else:
+                rev_dkey = {v: k for k, v in dkey.items()}
+                try:
+                    message = rev_dkey[key]
+                except KeyError:
+                    message = f'order-{key} spline'
+
+            warnings.warn("Requested coefficients are "
+                          "outside of the model time period from "
+                          f"{start} to {end} Modified Julian Date 2000. "
+                          f"Doing {message} extrapolation of the "
+                          "coefficient time series.")
+
+            if key > 0:
+                for x in [start, end]:  # left and right
+                    bin = np.zeros((self.order, 1, dim))
+                    for k in range(key):
+                        bin[-1-k] = PP(x, nu=k) / factorial(k)
+                    PP.extend(bin, np.array([x]))
+
+            else:  # no extrapolation
+                PP.extrapolate = False
+
+        PP = PP.derivative(nu=deriv)
+        coeffs = PP(time) * 365.25**deriv
+
+        return coeffs
+
+    def to_ppdict(self):
+        """
+        Return a dictionary of the piecewise polynomial that is compatible with
+        MATLAB's pp-form.
+
+        Returns
+        -------
+        pp : dict
+            Dictionary of the pp-form compatible with MATLAB. Elements are
+            NumPy arrays.
+
+        See Also
+        --------
+        Base.save_matfile
+
+        """
+
+        pp = dict(
+            form='pp',
+            order=np.array(self.order, float),
+            pieces=np.array(self.pieces, float),
+            dim=np.array(self.dim, float),
+            breaks=self.breaks.copy().reshape((1, -1)),  # ensure 2d
+            coefs=np.reshape(self.coeffs.copy(), (self.order, -1)).transpose()
+        )
+
+        return pp
+
+    def save_matfile(self, filepath, path=None):
+        """
+        Save piecewise polynomial as MAT-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Filepath and name of MAT-file.
+        path : str
+            Location in MAT-file. Defaults to ``'/pp'``.
+
+        See Also
+        --------
+        Base.to_ppdict
+
+        """
+
+        if path is None:
+            path = '/pp'
+
+        pp = self.to_ppdict()
+
+        hdf.write(pp, path=path, filename=filepath, matlab_compatible=True)
+
+
+class BaseModel(Base):
+    """
+    Class for piecewise polynomial spherical harmonic models.
+
+    Parameters
+    ----------
+    name : str
+        User specified name of the model.
+    breaks : ndarray, shape (m+1,)
+        Break points (`m` pieces plus one) for the piecewise polynomial
+        representation of the field model in modified Julian date format.
+        If a single break point is given, it is appended to itself to have two
+        points defining the model interval (single piece).
+    order : int, positive
+        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
+    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
+        Coefficients of the piecewise polynomial representation of the
+        field model.
+    source : {'internal', 'external'}
+        Internal or external source (defaults to ``'internal'``)
+    meta : dict, optional
+        Dictionary containing additional information about the model if
+        available.
+
+    Attributes
+    ----------
+    breaks : ndarray, shape (m+1,)
+        Break points (`m` pieces plus one) for the piecewise polynomial
+        representation of the field model in modified Julian date format.
+    pieces : int, positive
+        Number `m` of intervals given by break points in ``breaks``.
+    order : int, positive
+        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
+    nmax : int, positive
+        Maximum spherical harmonic degree of the field model.
+    dim : int, ``nmax`` * (``nmax`` + 2)
+        Dimension of the model.
+    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
+        Coefficients of the time-dependent field.
+    source : {'internal', 'external'}
+        Internal or external source (defaults to ``'internal'``)
+    meta : dict, optional
+        Dictionary containing additional information about the model if
+        available.
+
+    """
+
+    def __init__(self, name, breaks=None, order=None, coeffs=None,
+                 source=None, meta=None):
+        """
+        Initialize spherical harmonic model as a piecewise polynomial.
+
+        """
+
+        super().__init__(name, breaks=breaks, order=order, coeffs=coeffs,
+                         meta=meta)
+
+        if self.dim is None:
+            self.nmax = None
+        else:
+            self.nmax = int(np.sqrt(self.dim + 1) - 1)
+
+        self.source = 'internal' if source is None else source
+
+    def synth_coeffs(self, time, *, nmax=None, deriv=None, extrapolate=None):
+        """
+        Compute the coefficients from the piecewise polynomial representation.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+             +------------+---------------------------------------------------+
+             | Value      | Description                                       |
+             +============+===================================================+
+             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
+             +------------+---------------------------------------------------+
+             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
+             +------------+---------------------------------------------------+
+             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
+             +------------+---------------------------------------------------+
+             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
+             +------------+---------------------------------------------------+
+             | 'spline'   | Use all degree polynomials.                       |
+             +------------+---------------------------------------------------+
+             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
+             +------------+---------------------------------------------------+
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Array containing the coefficients.
+
+        """
+
+        dim = None if nmax is None else int(nmax*(nmax+2))
+        coeffs = super().synth_coeffs(time, dim=dim, deriv=deriv,
+                                      extrapolate=extrapolate)
+
+        return coeffs
+
+    def synth_values(self, time, radius, theta, phi, *, nmax=None,
+                     deriv=None, grid=None, extrapolate=None):
+        """
+        Compute magnetic components from the field model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian date.
+        radius : ndarray, shape (...) or float
+            Radius in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid.
+            Arrays ``theta`` and ``phi`` must have one dimension less than the
+            output grid since the grid will be created as their outer product.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        """
+
+        if nmax is None:
+            nmax = self.nmax
+        elif nmax > self.nmax:
+            warnings.warn(
+                f'Supplied nmax = {nmax} is incompatible with number of '
+                f'coefficients. Using nmax = {self.nmax} instead.'
+            )
+            nmax = self.nmax
+
+        coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,
+                                   extrapolate=extrapolate)
+
+        return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,
+                               source=self.source, grid=grid)
+
+    def power_spectrum(self, time, radius=None, **kwargs):
+        """
+        Compute the spatial power spectrum.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...)
+            Time in modified Julian date.
+        radius : float, optional
+            Radius in kilometers (defaults to Earth's surface defined in
+            ``basicConfig['r_surf']``).
+
+        Returns
+        -------
+        R_n : ndarray, shape (..., ``nmax``)
+            Spatial power spectrum of the spherical harmonic expansion up to
+            degree ``nmax``.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.synth_coeffs` method.
+
+        See Also
+        --------
+        chaosmagpy.model_utils.power_spectrum
+
+        """
+
+        if radius is None:
+            radius = config_utils.basicConfig['params.r_surf']
+
+        coeffs = self.synth_coeffs(time, **kwargs)
+        spec = mu.power_spectrum(coeffs, radius, source=self.source)
+
+        return spec
+
+    def plot_power_spectrum(self, time, **kwargs):
+        """
+        Plot the spatial power spectrum.
+
+        Parameters
+        ----------
+        time : float
+            Time in modified Julian date.
+
+        Other Parameters
+        ----------------
+        radius : float, optional
+            Radius in kilometers (defaults to Earth's surface defined in
+            basicConfig['r_surf']).
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.model_utils.power_spectrum
+
+        """
+
+        defaults = dict(radius=None,
+                        deriv=0,
+                        nmax=self.nmax,
+                        titles='spatial power spectrum')
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        radius = kwargs.pop('radius')
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+
+        units = f'({du.gauss_units(deriv)})$^2$'
+        kwargs.setdefault('ylabel', units)
+
+        R_n = self.power_spectrum(time, radius, nmax=nmax, deriv=deriv)
+
+        pu.plot_power_spectrum(R_n, **kwargs)
+
+    def plot_maps(self, time, radius, **kwargs):
+        """
+        Plot global maps of the field components.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time in modified Julian date.
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options are passed to :func:`plot_utils.plot_maps`
+            function.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.plot_utils.plot_maps
+
+        """
+
+        defaults = dict(deriv=0, nmax=self.nmax)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        # remove keywords that are not intended for pcolormesh
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
+
+        # add plot_maps options to dictionary
+        kwargs.setdefault('label', du.gauss_units(deriv))
+        kwargs.setdefault('titles', titles)
+
+        # handle optional argument: nmax > coefficient nmax
+        if nmax > self.nmax:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.nmax))
+            nmax = self.nmax
+
+        time = np.array(time, dtype=float)
+        theta = np.linspace(1, 179, num=320)
+        phi = np.linspace(-180, 180, num=640)
+
+        B_radius, B_theta, B_phi = self.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv,
+            grid=True, extrapolate=None)
+
+        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi, **kwargs)
+
+    def plot_timeseries(self, radius, theta, phi, **kwargs):
+        """
+        Plot the time series of the time-dependent field components at a
+        specific location.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (), (1,) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (), (1,) or float
+            Longitude in degrees.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
+            Extrapolate to times outside of the model bounds. Defaults to
+            ``'linear'``.
+        **kwargs : keywords
+            Other options to pass to :func:`plot_utils.plot_timeseries`
+            function.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.plot_utils.plot_timeseries
+
+        """
+
+        defaults = dict(deriv=0,
+                        nmax=self.nmax,
+                        titles=['$B_r$', '$B_\\theta$', '$B_\\phi$'],
+                        extrapolate=None)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        # remove keywords that are not intended for pcolormesh
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+        extrapolate = kwargs.pop('extrapolate')
+
+        # add options to dictionary
+        kwargs.setdefault('ylabel', du.gauss_units(deriv))
+
+        time = np.linspace(self.breaks[0], self.breaks[-1], num=500)
+
+        B_radius, B_theta, B_phi = self.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv,
+            extrapolate=extrapolate)
+
+        pu.plot_timeseries(time, B_radius, B_theta, B_phi, **kwargs)
+
+    @classmethod
+    def from_bspline(cls, name, knots, coeffs, order, source=None, meta=None):
+        """
+        Return BaseModel instance from a B-spline representation.
+
+        Parameters
+        ----------
+        name : str
+            User specified name of the model.
+        knots : ndarray, shape (N,)
+            B-spline knots. Knots must have endpoint multiplicity equal to
+            ``order``. Zero-pad ``coeffs`` if needed.
+        coeffs : ndarray, shape (M, D)
+            Bspline coefficients for the `M` B-splines parameterizing
+            `D` dimensions.
+        order : int
+            Order of the B-spline.
+        source : {'internal', 'external'}
+            Internal or external source (defaults to ``'internal'``)
+        meta : dict, optional
+            Dictionary containing additional information about the model.
+
+        Returns
+        -------
+        model : :class:`BaseModel`
+            Class :class:`BaseModel` instance.
+
+        """
+
+        coeffs_pp, breaks = mu.pp_from_bspline(coeffs, knots, order)
+
+        return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
+                   source=source, meta=meta)
+
+    def to_shc(self, filepath, *, leap_year=None, nmin=None, nmax=None,
+               header=None):
+        """
+        Save spherical harmonic coefficients to a file in `shc`-format.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of output file `*.shc`.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+        nmin : int, optional
+            Minimum spherical harmonic degree (defaults to 1). This will remove
+            first values from coeffs if greater than 1.
+        nmax : int, optional
+            Maximum spherical harmonic degree (defaults to the maximum degree
+            of the model given by ``self.nmax``).
+        header : str, optional
+            Optional header at beginning of file (defaults to a comment line
+            with the name of the model given by ``self.name``).
+
+        """
+
+        leap_year = False if leap_year is None else leap_year
+        header = f"# {self.name}\n" if header is None else header
+        nmin = 1 if nmin is None else int(nmin)
+        nmax = self.nmax if nmax is None else int(nmax)
+
+        if self.coeffs is None:
+            raise ValueError("Spline coefficients are missing.")
+
+        step = max(self.order - 1, 1)
+
+        # compute times in mjd2000
+        if (self.order == 1):
+            # piecewise constant, drop coefficients at last break point
+            times = self.breaks[:-1]
+
+        else:
+            # insert extra samples in between break points
+            times = np.array([], dtype=float)
+
+            for start, end in zip(self.breaks[:-1], self.breaks[1:]):
+                delta = (end - start) / step
+                times = np.append(times, np.arange(start, end, delta))
+
+            times = np.append(times, self.breaks[-1])
+
+        gauss_coeffs = self.synth_coeffs(times, nmax=self.nmax)
+
+        du.save_shcfile(times, gauss_coeffs, order=self.order,
+                        filepath=filepath, nmin=nmin, nmax=nmax,
+                        leap_year=leap_year, header=header)
+
+    @classmethod
+    def from_shc(cls, filepath, *, name=None, leap_year=None,
+                 source=None, meta=None):
+        """
+        Return BaseModel instance by loading a model from an SHC-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to SHC-file.
+        name : str, optional
+            User defined name of the model. Defaults to the filename without
+            the file extension.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+        source : {'internal', 'external'}
+            Internal or external source (defaults to ``'internal'``)
+        meta : dict, optional
+            Dictionary containing additional information about the model.
+
+        Returns
+        -------
+        model : :class:`BaseModel`
+            Class :class:`BaseModel` instance.
+
+        """
+
+        if name is None:
+            # get name without extension
+            name = os.path.splitext(os.path.basename(filepath))[0]
+
+        source = 'internal' if source is None else source
+        leap_year = False if leap_year is None else leap_year
+
+        time, coeffs, params = du.load_shcfile(filepath, leap_year=leap_year)
+
+        coeffs = coeffs.T  # (Nt, Nc): simplifies array manipulations
+
+        nmin = params['nmin']
+        nmax = params['nmax']
+        order = params['order']
+        step = max(params['step'], 1)
+
+        if order == 1:
+            # piecewise constant
+            # duplicate endpoint to have a proper interval for the polynomial
+            breaks = np.append(time, time[-1])  # zero length interval is ok
+        else:
+            breaks = time[::step]
+
+        # need to pad coefficients if nmin > 1 (no n < nmin coeffs in shc file)
+        if nmin > 1:
+            coeffs_pad = np.zeros((coeffs.shape[0], nmax*(nmax + 2)))
+            coeffs_pad[:, int(nmin**2 - 1):] = coeffs
+        else:
+            coeffs_pad = coeffs
+
+        if (order == 1):  # piecewise constant
+
+            coeffs_pp = coeffs_pad[None, ...]  # insert singleton at 0th axis
+
+            return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
+                       source=source, meta=meta)
+
+        else:  # model must be time-dependent (incl. piecewise constant)
+
+            # there may be extra sites to extend the model interval,
+            # but these extrapolation sites are just discarded here
+            end = ((time.size - 1) // step) * step + 1
+
+            knots = mu.augment_breaks(breaks, order)
+            spl = sip.make_lsq_spline(time[:end], coeffs_pad[:end, :],
+                                      knots, order - 1)
+            coeffs_pp = spl.c.copy()
+
+            # convert B-spline basis to PPoly
+            return cls.from_bspline(name, knots=knots, coeffs=coeffs_pp,
+                                    order=order, source=source, meta=meta)
+
+
+class CHAOS(object):
+    """
+    Class for the time-dependent geomagnetic field model CHAOS.
+
+    Parameters
+    ----------
+    breaks : ndarray, shape (m+1,)
+        Break points for piecewise polynomial representation of the
+        time-dependent internal (i.e. large-scale core) field in modified
+        Julian date format.
+    order : int, positive
+        Order `k` of polynomial pieces (e.g. 4 = cubic) of the time-dependent
+        internal field.
+    coeffs_tdep : ndarray, shape (`k`, `m`, ``n_tdep`` * (``n_tdep`` + 2))
+        Coefficients of the time-dependent internal field as piecewise
+        polynomial.
+    coeffs_static : ndarray,  shape (``n_static`` * (``n_static`` + 2),)
+        Coefficients of the static internal (i.e. small-scale crustal) field.
+    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
+        Coefficients of the static external field in SM coordinates.
+    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
+        Coefficients of the static external field in GSM coordinates.
+    breaks_delta : dict with ndarrays, shape (:math:`m_q` + 1,)
+        Breaks of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
+        Coefficients of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    breaks_euler : dict with ndarrays, shape (:math:`m_e` + 1,)
+        Dictionary containing satellite name as key and corresponding break
+        vectors of Euler angles (keys are ``'oersted'``, ``'champ'``,
+        ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``, ``'swarm_c'``,
+        ``'cryosat-2_1'``).
+    coeffs_euler : dict with ndarrays, shape (1, :math:`m_e`, 3)
+        Dictionary containing satellite name as key and arrays of the Euler
+        angles alpha, beta and gamma as trailing dimension (keys are
+        ``'oersted'``, ``'champ'``, ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``,
+        ``'swarm_c'``, ``'cryosat-2_1'``).
+    breaks_cal : dict with ndarrays, shape (:math:`m_c` + 1,)
+        Dictionary containing satellite name as key and corresponding break
+        vectors for the calibration parameters (keys are ``'cryosat-2_1'``).
+    coeffs_cal : dict with ndarrays, shape (1, :math:`m_c`, 3)
+        Dictionary containing satellite name as key and arrays of the 9 basic
+        calibration parameters (3 offsets, 3 sensitivities, 3
+        non-orthogonality angles) (keys are ``'cryosat-2_1'``).
+    name : str, optional
+        User defined name of the model. Defaults to ``'CHAOS'``.
+    meta : dict, optional
+        Dictionary containing additional information about the model.
+
+    Attributes
+    ----------
+    timestamp : str
+        UTC timestamp at initialization.
+    model_tdep : :class:`BaseModel` instance
+        Time-dependent internal field model.
+    model_static : :class:`BaseModel` instance
+        Static internal field model.
+    model_euler : dict of :class:`Base` instances
+        Dictionary containing the satellite's name as key and the Euler angles
+        as :class:`Base` class instance.
+    model_cal : dict of :class:`Base` instances
+        Dictionary containing the satellite's name as key and the calibration
+        parameters as :class:`Base` class instance.
+    n_sm : int, positive
+        Maximum spherical harmonic degree of external field in SM coordinates.
+    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
+        Coefficients of static external field in SM coordinates.
+    n_gsm : int, positive
+        Maximum spherical harmonic degree of external field in GSM coordinates.
+    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
+        Coefficients of static external field in GSM coordinates.
+    breaks_delta : dict with ndarrays, shape (:math:`m_q` +1,)
+        Breaks of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
+        Coefficients of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    name : str, optional
+        User defined name of the model.
+    meta : dict, optional
+        Dictionary containing additional information about the model.
+
+    Examples
+    --------
+    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+    directory like this:
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+    >>> print(model)
+
+    For more examples, see the documentation of the methods below.
+
+    """
+
+    def __init__(
+        self,
+        breaks,
+        order=None,
+        *,
+        coeffs_tdep=None,
+        coeffs_static=None,
+        coeffs_sm=None,
+        coeffs_gsm=None,
+        breaks_delta=None,
+        coeffs_delta=None,
+        breaks_euler=None,
+        coeffs_euler=None,
+        breaks_cal=None,
+        coeffs_cal=None,
+        name=None,
+        meta=None
+    ):
+        """
+        Initialize the CHAOS model.
+
+        """
+
+        self.timestamp = str(datetime.datetime.now(datetime.timezone.utc))
+
+        # give the model a name: CHAOS or user input
+        if name is None:
+            name = "CHAOS"
+
+        self.name = str(name)
+
+        # internal field
+        if coeffs_tdep is None:
+            self.model_tdep = None
+        else:
+            self.model_tdep = BaseModel(
+                name=name + '_tdep',
+                breaks=breaks,
+                order=order,
+                coeffs=coeffs_tdep,
+                source='internal'
+            )
+
+        if coeffs_static is None:
+            self.model_static = None
+        else:
+            self.model_static = BaseModel(
+                name=name + '_static',
+                breaks=breaks[[0, -1]],
+                order=1,
+                coeffs=coeffs_static,
+                source='internal'
+            )
+
+        # helper for returning the degree of the provided coefficients
+        def dimension(coeffs):
+            if coeffs is None:
+                return coeffs
+            else:
+                return int(np.sqrt(coeffs.shape[-1] + 1) - 1)
+
+        # external source in SM reference
+        self.coeffs_sm = coeffs_sm
+        self.n_sm = dimension(coeffs_sm)
+
+        # external source in GSM reference
+        self.coeffs_gsm = coeffs_gsm
+        self.n_gsm = dimension(coeffs_gsm)
+
+        # external source in SM reference: RC offset
+        self.breaks_delta = breaks_delta
+        self.coeffs_delta = coeffs_delta
+
+        # Euler angles
+        if breaks_euler is None:
+            self.model_euler = None
+        else:
+            satellites = tuple([*breaks_euler.keys()])
+            self.model_euler = dict()
+
+            for k, satellite in enumerate(satellites):
+
+                try:
+                    Euler_prerotation = meta['params']['Euler_prerotation'][k]
+                except KeyError:
+                    Euler_prerotation = None
+
+                model = Base(
+                    satellite,
+                    order=1,
+                    breaks=breaks_euler[satellite],
+                    coeffs=coeffs_euler[satellite],
+                    meta={
+                        'Euler_prerotation': Euler_prerotation
+                    }
+                )
+                self.model_euler[satellite] = model
+
+        # calibration parameters
+        if breaks_cal is None:
+            self.model_cal = None
+        else:
+            satellites = tuple([*breaks_cal.keys()])
+            self.model_cal = dict()
+
+            for k, satellite in enumerate(satellites):
+
+                model = Base(
+                    satellite,
+                    order=1,
+                    breaks=breaks_cal[satellite],
+                    coeffs=coeffs_cal[satellite],
+                )
+                self.model_cal[satellite] = model
+
+        self.meta = meta
+
+    def __call__(self, time, radius, theta, phi, rc_e=None, rc_i=None,
+                 source_list=None, nmax_static=None, verbose=None):
+        """
+        Calculate the magnetic field of all sources from the CHAOS model.
+
+        All sources means the time-dependent and static internal fields, and
+        the external magnetospheric (SM/GSM) fields including their
+        induced parts.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        rc_e : ndarray, shape (...), optional
+            External part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        rc_i : ndarray, shape (...), optional
+            Internal part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        source_list : list, ['tdep', 'static', 'gsm', 'sm'] or \
+str, {'internal', 'external'}
+            Specify sources in any order. Default is all sources. Instead of a
+            list, pass ``source_list='internal'`` which is equivalent to
+            ``source_list=['tdep', 'static']`` (internal sources) or
+            ``source_list='external'`` which is the same as
+            ``source_list=['gsm', 'sm']`` (external sources including induced
+            part).
+        nmax_static : int, optional
+            Maximum spherical harmonic degree of the static internal magnetic
+            field (defaults to 85).
+        verbose : {False, True}, optional
+            Print messages (defaults to ``False``).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> Br, Bt, Bp = model(0., 6371.2, 45., 0., source_list=['tdep', \
+'static'])  # only internal sources
+        >>> Br
+        array(-40418.23217586)
+
+        """
+
+        time = np.asarray(time, dtype=float)
+        radius = np.asarray(radius, dtype=float)
+        theta = np.asarray(theta, dtype=float)
+        phi = np.asarray(phi, dtype=float)
+
+        if source_list is None:
+            source_list = ['tdep', 'static', 'gsm', 'sm']
+
+        elif source_list == 'internal':
+            source_list = ['tdep', 'static']
+
+        elif source_list == 'external':
+            source_list = ['gsm', 'sm']
+
+        source_list = np.ravel(np.array(source_list))
+
+        verbose = bool(verbose)
+
+        # get shape of broadcasted result
+        try:
+            b = np.broadcast(time, radius, theta, phi)
+        except ValueError:
+            print('Cannot broadcast grid shapes:')
+            print(f'time:   {time.shape}')
+            print(f'radius: {radius.shape}')
+            print(f'theta:  {theta.shape}')
+            print(f'phi:    {phi.shape}')
+            raise
+
+        grid_shape = b.shape
+
+        B_radius = np.zeros(grid_shape)
+        B_theta = np.zeros(grid_shape)
+        B_phi = np.zeros(grid_shape)
+
+        if 'tdep' in source_list:
+
+            if verbose:
+                print(f'Computing time-dependent internal field'
+                      f' up to degree {self.model_tdep.nmax}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_tdep(
+                time, radius, theta, phi)
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'static' in source_list:
+
+            nmax_static = 85 if nmax_static is None else nmax_static
+
+            if verbose:
+                print(f'Computing static internal (i.e. small-scale crustal) '
+                      f'field up to degree {nmax_static}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_static(
+                radius, theta, phi, nmax=nmax_static)
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'gsm' in source_list:
+
+            if verbose:
+                print(f'Computing GSM field up to degree {self.n_gsm}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_gsm(
+                time, radius, theta, phi, source='all')
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'sm' in source_list:
+
+            if verbose:
+                print(f'Computing SM field up to degree {self.n_sm}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_sm(
+                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        return B_radius, B_theta, B_phi
+
+    def __str__(self):
+        """
+        Print model version and initialization timestamp.
+        """
+
+        string = (f"{self.name}: Initialized on {self.timestamp} UTC.")
+
+        return string
+
+    def synth_coeffs_tdep(self, time, *, nmax=None, **kwargs):
+        """
+        Compute the spherical harmonic coefficients of the time-dependent
+        internal magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.synth_coeffs`
+            method.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Coefficients of the time-dependent internal field.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+
+        >>> model.synth_coeffs_tdep(time, nmax=1)  # dipole coefficients
+        array([[-29614.72797782,  -1728.47079907,   5185.50518939],
+               [-29614.33800306,  -1728.13680075,   5184.89196286]])
+
+        >>> model.synth_coeffs_tdep(time, nmax=1, deriv=1)  # SV coefficients
+        array([[ 14.25577646,  12.20214856, -22.43412895],
+               [ 14.2317297 ,  12.19625726, -22.36146885]])
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        return self.model_tdep.synth_coeffs(time, nmax=nmax, **kwargs)
+
+    def synth_values_tdep(self, time, radius, theta, phi, *, nmax=None,
+                          deriv=None, grid=None, extrapolate=None):
+        """
+        Compute the vector components of the time-dependent internal
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (None defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid.
+            Arrays ``theta`` and ``phi`` must have one dimension less than the
+            output grid since the grid will be created as their outer product.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+
+        Compute magnetic field components at specific location.
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-40422.44815265, -40423.15091334])
+
+        Only dipole contribution:
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0., nmax=1)
+        >>> Br
+        array([-44325.97679843, -44324.95294588])
+
+        Secular variation:
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.,\
+ deriv=1)
+        >>> Br
+        array([-25.64604374, -25.69002078])
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        return self.model_tdep.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv, grid=grid,
+            extrapolate=extrapolate)
+
+    def plot_timeseries_tdep(self, radius, theta, phi, **kwargs):
+        """
+        Plot the time series of the time-dependent internal field from the
+        CHAOS model at a given location.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (), (1,) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (), (1,) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.plot_timeseries`
+            method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        self.model_tdep.plot_timeseries(radius, theta, phi, **kwargs)
+
+    def plot_maps_tdep(self, time, radius, *, nmax=None, deriv=None, **kwargs):
+        """
+        Plot global map of the time-dependent internal field from the CHAOS
+        model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time given as MJD2000 (modified Julian date).
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.plot_maps` method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        self.model_tdep.plot_maps(time, radius, nmax=nmax,
+                                  deriv=deriv, **kwargs)
+
+    def synth_coeffs_static(self, *, nmax=None, **kwargs):
+        """
+        Compute the spherical harmonic coefficients of the static internal
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.synth_coeffs`
+            method.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (``nmax`` * (``nmax`` + 2),)
+            Coefficients of the static internal field.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_static(nmax=50)
+        array([ 0.     , 0.     ,  0.     , ...,  0.01655, -0.06339,  0.00715])
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        time = self.model_static.breaks[0]
+        return self.model_static.synth_coeffs(time, nmax=nmax, **kwargs)
+
+    def synth_values_static(self, radius, theta, phi, *, nmax=None, **kwargs):
+        """
+        Compute the vector components of the static internal magnetic field
+        from the CHAOS model.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.synth_values`
+            method.
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> Br, Bt, Bp = model.synth_values_static(6371.2, 45., 0., nmax=50)
+        >>> Br
+        array(-7.5608993)
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        time = self.model_static.breaks[0]
+        return self.model_static.synth_values(time, radius, theta, phi,
+                                              nmax=nmax, **kwargs)
+
+    def plot_maps_static(self, radius, *, nmax=None, **kwargs):
+        """
+        Plot global map of the static internal field from the CHAOS model.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.plot_maps`
+            method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        defaults = dict(cmap='nio',
+                        deriv=0,
+                        vmax=200,
+                        vmin=-200)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        time = self.model_static.breaks[0]
+
+        self.model_static.plot_maps(time, radius, nmax=nmax, **kwargs)
+
+    def synth_coeffs_gsm(self, time, *, nmax=None, source=None):
+        """
+        Compute the spherical harmonic coefficients of the far-magnetospheric
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in days.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'external', 'internal'}, optional
+            Choose source either external or internal (default is 'external').
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Spherical harmonic coefficients of the far-magnetospheric magnetic
+            field with respect to geographic coordinates (GEO).
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_gsm(0.0)
+        array([11.63982782, -4.9276483 , -2.36281582,  0.46063709, -0.37934517,
+               -0.18234297,  0.06281656,  0.07757099])
+
+        """
+
+        if self.coeffs_gsm is None:
+            raise ValueError("External GSM field coefficients are missing.")
+
+        # handle optional argument: nmax
+        if nmax is None:
+            nmax = self.n_gsm
+        elif nmax > self.n_gsm:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.n_gsm))
+            nmax = self.n_gsm
+
+        if source is None:
+            source = 'external'
+
+        # ensure ndarray input
+        time = np.asarray(time, dtype=float)
+
+        # use static part to define modelled period
+        start = self.model_static.breaks[0]
+        end = self.model_static.breaks[-1]
+
+        if np.amin(time) < start or np.amax(time) > end:
+            warnings.warn(
+                'Requested coefficients are outside of the '
+                f'model period from {start} to {end}. Doing linear '
+                'extrapolation of the coefficients in the GSM reference '
+                'frame.')
+
+        # build rotation matrix from file
+        frequency_spectrum = np.load(
+            config_utils.basicConfig['file.GSM_spectrum'])
+        assert np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']), \
+            "GSM rotation coefficients not compatible with the chosen dipole."
+
+        if source == 'external':
+            # unpack file: oscillations per day, complex spectrum
+            frequency = frequency_spectrum['frequency']
+            spectrum = frequency_spectrum['spectrum']
+            scaled = frequency_spectrum['scaled']
+
+            # build rotation matrix for external field coefficients GSM -> GEO
+            rotate_gauss = cu.synth_rotate_gauss(
+                time, frequency, spectrum, scaled=scaled)
+
+            # rotate external GSM coefficients to GEO reference
+            coeffs = np.matmul(rotate_gauss, self.coeffs_gsm)
+
+        elif source == 'internal':
+            # unpack file: oscillations per day, complex spectrum
+            frequency_ind = frequency_spectrum['frequency_ind']
+            spectrum_ind = frequency_spectrum['spectrum_ind']
+            scaled = frequency_spectrum['scaled']
+
+            # build rotation matrix for external field coefficients GSM -> GEO
+            rotate_gauss_ind = cu.synth_rotate_gauss(
+                time, frequency_ind, spectrum_ind, scaled=scaled)
+
+            # rotate internal GSM coefficients to GEO reference
+            coeffs = np.matmul(rotate_gauss_ind, self.coeffs_gsm)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''external'', ''internal''}.')
+
+        return coeffs[..., :nmax*(nmax+2)]
+
+    def synth_values_gsm(self, time, radius, theta, phi, *, nmax=None,
+                         source=None, grid=None):
+        """
+        Compute the vector components of the far-magnetospheric magnetic
+        field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        radius : float or ndarray, shape (...)
+            Array containing the radius in kilometers.
+        theta : float or ndarray, shape (...)
+            Array containing the colatitude in degrees
+            :math:`[0^\\circ,180^\\circ]`.
+        phi : float or ndarray, shape (...)
+            Array containing the longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            both added (default to 'all').
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid,
+            which is created from ``theta`` and ``phi`` as their outer product
+            (defaults to ``False``).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+        >>> Br, Bt, Bp = model.synth_values_gsm(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-8.18751916, -8.25661729])
+
+        """
+
+        source = 'all' if source is None else source
+        grid = False if grid is None else grid
+
+        if source == 'all':
+            coeffs_ext = self.synth_coeffs_gsm(time, nmax=nmax,
+                                               source='external')
+            coeffs_int = self.synth_coeffs_gsm(time, nmax=nmax,
+                                               source='internal')
+
+            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
+                coeffs_ext, radius, theta, phi, source='external', grid=grid)
+            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
+                coeffs_int, radius, theta, phi, source='internal', grid=grid)
+
+            B_radius = B_radius_ext + B_radius_int
+            B_theta = B_theta_ext + B_theta_int
+            B_phi = B_phi_ext + B_phi_int
+
+        elif source in ['external', 'internal']:
+            coeffs = self.synth_coeffs_gsm(time, nmax=nmax, source=source)
+            B_radius, B_theta, B_phi = mu.synth_values(
+                coeffs, radius, theta, phi, source=source, grid=grid)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        return B_radius, B_theta, B_phi
+
+    def synth_coeffs_sm(self, time, *, nmax=None, source=None, rc=None):
+        """
+        Compute the spherical harmonic coefficients of the near-magnetospheric
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in days.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'external', 'internal'}, optional
+            Choose source either external or internal (default is 'external').
+        rc : ndarray, shape (...), optional
+            External (internal) part of the RC-index (defaults to linearly
+            interpolating the hourly values given by the built-in RC-index
+            file). Use the external part of the RC-index for
+            ``source='external'`` (default) and the internal part for
+            ``source='internal'``. See also the notes section below for more
+            information on the RC-index file.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Spherical harmonic coefficients of the near-magnetospheric magnetic
+            field with respect to geographic coordinates (GEO).
+
+        Notes
+        -----
+        The computation of the near-magnetospheric field coefficients requires
+        the RC-index. If the values of the RC-index are not supplied
+        directly via the ``rc`` input argument, a built-in RC-index file is
+        loaded. This file goes with a specific version of the CHAOS model,
+        which can be inspected by running
+        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
+        session. It is recommended to use this version of the CHAOS model
+        together with the built-in RC-index.
+
+        For the latest CHAOS model, if necessary, a suitable RC-index file can
+        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
+        RC-index file by either providing interpolated values from the
+        downloaded file via the ``rc`` input argument, or by replacing
+        the path in ChaosMagPy's configuration dictionary
+        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
+        downloaded file (for more details, see Sect.
+        :ref:`sec-configuration-change-rc-index-file`).
+
+        See Also
+        --------
+        CHAOS.synth_values_sm
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_sm(0.)
+        array([53.20309271,  3.79138724, -8.59458138, -0.62818711,  1.45506171,
+               -0.57977672, -0.31660638, -0.43888236])
+
+        """
+
+        if self.coeffs_sm is None:
+            raise ValueError("External SM field coefficients are missing.")
+
+        # handle optional argument: nmax
+        if nmax is None:
+            nmax = self.n_sm
+        elif nmax > self.n_sm:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.n_sm))
+            nmax = self.n_sm
+
+        if source is None:
+            source = 'external'
+
+        # find smallest overlapping time period for breaks_delta
+        start = np.amax([self.breaks_delta['q10'][0],
+                         self.breaks_delta['q11'][0],
+                         self.breaks_delta['s11'][0]])
+        end = np.amin([self.breaks_delta['q10'][-1],
+                       self.breaks_delta['q11'][-1],
+                       self.breaks_delta['s11'][-1]])
+
+        # ensure ndarray input
+        time = np.asarray(time, dtype=float)
+
+        if np.amin(time) < start or np.amax(time) > end:
+            warnings.warn(
+                'Requested coefficients are outside of the '
+                f'model period from {start} to {end}. Doing linear '
+                'extrapolation of the coefficients in the SM reference frame.')
+
+        # load the Fourier spectrum of the coordinate transformation from file
+        frequency_spectrum = np.load(
+            config_utils.basicConfig['file.SM_spectrum'])
+        assert np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']), \
+            ("Coefficients for the SM coordinate transformation are not " +
+             "compatible with the chosen dipole.")
+
+        if rc is None:
+
+            default = config_utils.basicConfig.defaults['file.RC_index'][0]
+            file = config_utils.basicConfig['file.RC_index']
+
+            if file == default:
+                warnings.warn(
+                    'ChaosMagPy is loading the built-in '
+                    'RC-index file recommended for '
+                    f'CHAOS-{config_utils.basicConfig["params.CHAOS_version"]}'
+                    '. If this is not the CHAOS model version that is being '
+                    'used here, consider changing the model and/or the '
+                    'built-in RC-index file '
+                    '(see https://chaosmagpy.readthedocs.io/en/'
+                    'master/configuration.html#change-rc-index-file '
+                    'on how to change the built-in file).'
+                )
+
+            # load RC-index file: first hdf5 then dat-file format
+            try:
+                with h5py.File(file, 'r') as f_RC:
+
+                    # create linear interpolant of the RC-index
+                    RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
+                                      kind='linear', bounds_error=False)
+
+            except OSError:
+                f_RC = du.load_RC_datfile(file)
+
+                # create linear interpolant of the RC-index
+                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
+                                  kind='linear', bounds_error=False)
+
+            # check RC bounds here to print specific error message
+            rc_below, rc_above = RC._check_bounds(time)
+
+            if rc_below.any() or rc_above.any():
+                raise ValueError("Requested coefficients are outside of the "
+                                 "period covered by the built-in RC-index "
+                                 "file. Either supply values of the RC-index "
+                                 "directly via the ``rc`` input argument or "
+                                 "provide the path to an extended RC-index "
+                                 "file by updating the path in "
+                                 "chaosmagpy.basicParams['file.RC_index'] "
+                                 "(see https://chaosmagpy.readthedocs.io/en/"
+                                 "master/configuration.html#change-rc-"
+                                 "index-file for details).")
+
+            rc = RC(time)  # interpolate RC-index
+
+        else:
+            rc = np.asarray(rc, dtype=float)  # use supplied index values
+
+        # use piecewise polynomials to evaluate baseline correction in bins
+        delta_q10 = sip.PPoly.construct_fast(
+            self.coeffs_delta['q10'].astype(float),
+            self.breaks_delta['q10'].astype(float), extrapolate=True)
+
+        delta_q11 = sip.PPoly.construct_fast(
+            self.coeffs_delta['q11'].astype(float),
+            self.breaks_delta['q11'].astype(float), extrapolate=True)
+
+        delta_s11 = sip.PPoly.construct_fast(
+            self.coeffs_delta['s11'].astype(float),
+            self.breaks_delta['s11'].astype(float), extrapolate=True)
+
+        # unpack file: oscillations per day, complex spectrum
+        frequency = frequency_spectrum['frequency']
+        spectrum = frequency_spectrum['spectrum']
+        scaled = frequency_spectrum['scaled']
+
+        # build rotation matrix for external field coefficients SM -> GEO
+        rotate_gauss = cu.synth_rotate_gauss(
+            time, frequency, spectrum, scaled=scaled)
+
+        if source == 'external':
+            coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
+
+            coeffs_sm[..., 0] = rc*self.coeffs_sm[0] + delta_q10(time)
+            coeffs_sm[..., 1] = rc*self.coeffs_sm[1] + delta_q11(time)
+            coeffs_sm[..., 2] = rc*self.coeffs_sm[2] + delta_s11(time)
+            coeffs_sm[..., 3:] = self.coeffs_sm[3:]
+
+            # rotate external SM coefficients to GEO reference
+            coeffs = np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
+
+        elif source == 'internal':
+            # unpack file: oscillations per day, complex spectrum
+            frequency = frequency_spectrum['frequency_ind']
+            spectrum = frequency_spectrum['spectrum_ind']
+
+            # build rotation matrix for induced coefficients SM -> GEO
+            rotate_gauss_ind = cu.synth_rotate_gauss(
+                time, frequency, spectrum, scaled=scaled)
+
+            # take degree 1 matrix elements of unmodified rotation matrix
+            # since induction effect will be accounted for by RC_i
+            rotate_gauss = rotate_gauss[..., :3, :3]
+
+            coeffs_sm = np.empty(time.shape + (3,))
+
+            coeffs_sm[..., 0] = rc*self.coeffs_sm[0]
+            coeffs_sm[..., 1] = rc*self.coeffs_sm[1]
+            coeffs_sm[..., 2] = rc*self.coeffs_sm[2]
+
+            coeffs_sm_ind = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
+
+            coeffs_sm_ind[..., 0] = delta_q10(time)
+            coeffs_sm_ind[..., 1] = delta_q11(time)
+            coeffs_sm_ind[..., 2] = delta_s11(time)
+            coeffs_sm_ind[..., 3:] = self.coeffs_sm[3:]
+
+            # rotate internal SM coefficients to GEO reference
+            coeffs = np.einsum('...ij,...j', rotate_gauss_ind, coeffs_sm_ind)
+            coeffs[..., :3] += np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use one of {"external", "internal"}.')
+
+        return coeffs[..., :nmax*(nmax+2)]
+
+    def synth_values_sm(self, time, radius, theta, phi, *,
+                        rc_e=None, rc_i=None, nmax=None, source=None,
+                        grid=None):
+        """
+        Compute the vector components of the near-magnetospheric magnetic
+        field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        radius : float or ndarray, shape (...)
+            Array containing the radius in kilometers.
+        theta : float or ndarray, shape (...)
+            Array containing the colatitude in degrees
+            :math:`[0^\\circ,180^\\circ]`.
+        phi : float or ndarray, shape (...)
+            Array containing the longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            both added (default to 'all').
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid,
+            which is created from ``theta`` and ``phi`` as their outer product
+            (defaults to ``False``).
+        rc_e : ndarray, shape (...), optional
+            External part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        rc_i : ndarray, shape (...), optional
+            Internal part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Notes
+        -----
+        The computation of the near-magnetospheric field coefficients requires
+        the RC-index. If the values of the RC-index are not supplied
+        directly via the ``rc`` input argument, a built-in RC-index file is
+        loaded. This file goes with a specific version of the CHAOS model,
+        which can be inspected by running
+        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
+        session. It is recommended to use this version of the CHAOS model
+        together with the built-in RC-index.
+
+        For the latest CHAOS model, if necessary, a suitable RC-index file can
+        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
+        RC-index file by either providing interpolated values from the
+        downloaded file via the ``rc`` input argument, or by replacing
+        the path in ChaosMagPy's configuration dictionary
+        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
+        downloaded file (for more details, see Sect.
+        :ref:`sec-configuration-change-rc-index-file`).
+
+        See Also
+        --------
+        CHAOS.synth_values_sm
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+        >>> Br, Bt, Bp = model.synth_values_sm(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-18.85890361, -13.99893523])
+
+        """
+
+        source = 'all' if source is None else source
+        grid = False if grid is None else grid
+
+        if source == 'all':
+
+            coeffs_ext = self.synth_coeffs_sm(
+                time, nmax=nmax, source='external', rc=rc_e)
+            coeffs_int = self.synth_coeffs_sm(
+                time, nmax=nmax, source='internal', rc=rc_i)
+
+            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
+                coeffs_ext, radius, theta, phi, source='external', grid=grid)
+            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
+                coeffs_int, radius, theta, phi, source='internal', grid=grid)
+
+            B_radius = B_radius_ext + B_radius_int
+            B_theta = B_theta_ext + B_theta_int
+            B_phi = B_phi_ext + B_phi_int
+
+        elif source in ['external', 'internal']:
+
+            # set the RC-index
+            rc = rc_e if source == 'external' else rc_i
+
+            coeffs = self.synth_coeffs_sm(
+                time, nmax=nmax, source=source, rc=rc)
+            B_radius, B_theta, B_phi = mu.synth_values(
+                coeffs, radius, theta, phi, source=source, grid=grid)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        return B_radius, B_theta, B_phi
+
+    def plot_maps_external(self, time, radius, *, nmax=None, reference=None,
+                           source=None):
+        """
+        Plot global map of the external field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time given as MJD2000 (modified Julian date).
+        radius : ndarray, shape (), (1,) or float
+            Radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        reference : {'all', 'GSM', 'SM'}, optional
+            Choose contribution either from GSM, SM or the sum of both
+            (default).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            the sum of both (default).
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        reference = 'all' if reference is None else reference.lower()
+        source = 'all' if source is None else source.lower()
+
+        time = np.array(time, dtype=float)
+        radius = np.array(radius, dtype=float)
+        theta = np.linspace(1, 179, num=320)
+        phi = np.linspace(-180, 180, num=721)
+
+        # compute GSM contribution: external, internal
+        if reference == 'all' or reference == 'gsm':
+
+            # compute magnetic field components
+            B_radius_gsm, B_theta_gsm, B_phi_gsm = self.synth_values_gsm(
+                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
+
+        # compute SM contribution: external, internal
+        if reference == 'all' or reference == 'sm':
+
+            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(
+                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
+
+        if reference == 'all':
+            B_radius = B_radius_gsm + B_radius_sm
+            B_theta = B_theta_gsm + B_theta_sm
+            B_phi = B_phi_gsm + B_phi_sm
+        elif reference == 'gsm':
+            B_radius = B_radius_gsm
+            B_theta = B_theta_gsm
+            B_phi = B_phi_gsm
+        elif reference == 'sm':
+            B_radius = B_radius_sm
+            B_theta = B_theta_sm
+            B_phi = B_phi_sm
+        else:
+            raise ValueError(f'Unknown reference "{reference}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        units = du.gauss_units(0)
+
+        if reference == 'all':
+            titles = [f'$B_r$ ({source} sources)',
+                      f'$B_\\theta$ ({source} sources)',
+                      f'$B_\\phi$ ({source} sources)']
+        else:
+            titles = [f'$B_r$ ({reference.upper()} {source} sources)',
+                      f'$B_\\theta$ ({reference.upper()} {source} sources)',
+                      f'$B_\\phi$ ({reference.upper()} {source} sources)']
+
+        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi,
+                     titles=titles, label=units)
+
+    def synth_euler_angles(self, time, satellite, *, dim=None, deriv=None,
+                           extrapolate=None):
+        """
+        Extract Euler angles for specified satellite.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        satellite : str
+            Satellite from which to get the euler angles.
+        dim : int, positive, optional
+            Maximum dimension (default is 3, for the three angles alpha, beta,
+            gamma).
+        deriv : int, positive, optional
+            Derivative in time (default is 0).
+        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
+            Extrapolate to times outside of the model bounds. Defaults to
+            ``'linear'``.
+
+        Returns
+        -------
+        angles : ndarray, shape (..., 3)
+            Euler angles alpha, beta and gamma in degrees, stored in trailing
+            dimension.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> import numpy as np
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([500., 600.])
+        >>> model.meta['satellites']  # check satellite names
+        ('oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c')
+
+        >>> model.synth_euler_angles(time, 'champ')
+        array([[-0.05521985, -1.5763316 ,  0.48787601],
+               [-0.05440427, -1.57966925,  0.49043057]])
+
+        """
+
+        if satellite not in self.model_euler:
+            string = '", "'.join([*self.model_euler.keys()])
+            raise ValueError(
+                        f'Unknown satellite "{satellite}". Use '
+                        f'one of {{"{string}"}}.')
+
+        coeffs = self.model_euler[satellite].synth_coeffs(
+            time, dim=dim, deriv=deriv, extrapolate=extrapolate)
+
+        # add Euler prerotation angles if available in meta
+        pre = self.model_euler[satellite].meta['Euler_prerotation']
+        if pre is not None:
+            warnings.warn(f'Euler pre-rotation has not been applied. '
+                          f'The pre-rotation angles are {pre}.')
+
+        return coeffs
+
+    def save_shcfile(self, filepath, *, model=None, leap_year=None):
+        """
+        Save spherical harmonic coefficients to a file in `shc`-format.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of output file `*.shc`.
+        model : {'tdep', 'static'}, optional
+            Choose part of the model to save (default is 'tdep').
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+
+        """
+
+        model = 'tdep' if model is None else model
+
+        leap_year = False if leap_year is None else leap_year
+
+        if model == 'tdep':
+
+            if self.model_tdep is None:
+                raise ValueError("Time-dependent internal field coefficients "
+                                 "are missing.")
+
+            nmin = 1
+            nmax = self.model_tdep.nmax
+            order = self.model_tdep.order
+            pieces = self.model_tdep.breaks.size - 1
+            step = max(order - 1, 1)
+            np = pieces if order == 1 else (pieces * step + 1)
+
+            # create header lines
+            header = textwrap.dedent(f"""\
+                # {self.name}
+                # Spherical harmonic coefficients of the time-dependent
+                # internal field from degree {nmin} to {nmax}. Coefficients
+                # (units of nT) are given at {np} points in time and were
+                # extracted from a {order}-order piecewise polynomial. The
+                # break points are every {step} step(s) of the time sequence.
+                """)
+
+            self.model_tdep.to_shc(
+                filepath,
+                leap_year=leap_year,
+                nmin=nmin,
+                header=header
+            )
+
+        # output static field model coefficients
+        if model == 'static':
+
+            if self.model_static is None:
+                raise ValueError("Static internal field coefficients "
+                                 "are missing.")
+
+            nmin = self.model_tdep.nmax + 1
+            nmax = self.model_static.nmax
+            order = 1
+
+            # create additonal header lines
+            header = textwrap.dedent(f"""\
+                # {self.name}
+                # Spherical harmonic coefficients (units of nT) of the static
+                # internal field model from degree {nmin} to {nmax}. Given at
+                # the first break point.
+                """)
+
+            self.model_static.to_shc(
+                filepath,
+                leap_year=leap_year,
+                nmin=nmin,
+                header=header
+            )
+
+    def save_matfile(self, filepath):
+        """
+        Save CHAOS model to a MAT-file.
+
+        The model must be fully specified as is the case if originally loaded
+        from a MAT-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of MAT-file that is to be saved.
+
+        """
+
+        # write time-dependent internal field model to matfile
+        if self.model_tdep:
+            self.model_tdep.save_matfile(filepath)
+
+        if self.coeffs_delta:
+            # write time-dependent external field model to matfile
+            q10 = self.coeffs_delta['q10'].reshape((-1, 1))
+            q11 = np.ravel(self.coeffs_delta['q11'])
+            s11 = np.ravel(self.coeffs_delta['s11'])
+            qs11 = np.stack((q11, s11), axis=-1)
+
+            t_break_q10 = self.breaks_delta['q10'].reshape(
+                (-1, 1)).astype(float)
+            t_break_q11 = self.breaks_delta['q11'].reshape(
+                (-1, 1)).astype(float)
+
+            m_sm = np.array([np.mean(q10), np.mean(q11), np.mean(s11)])
+            m_sm = np.append(m_sm, self.coeffs_sm[3:]).reshape((-1, 1))
+
+            m_Dst = self.coeffs_sm[:3].reshape((3, 1))
+
+            # process gsm coefficients
+            m_gsm = self.coeffs_gsm[[0, 3]].reshape((2, 1))
+
+            model_ext = dict(
+                t_break_q10=t_break_q10,
+                q10=q10,
+                t_break_qs11=t_break_q11,
+                qs11=qs11,
+                m_sm=m_sm,
+                m_gsm=m_gsm,
+                m_Dst=m_Dst
+            )
+
+            hdf.write(model_ext, path='/model_ext', filename=filepath,
+                      matlab_compatible=True)
+
+        if self.model_euler:
+            # write Euler angles to matfile for each satellite
+            satellites = self.meta['satellites']
+
+            t_break_Euler = []  # list of Euler angle breaks for satellites
+            alpha = []  # list of alpha for each satellite
+            beta = []  # list of beta for each satellite
+            gamma = []  # list of gamma for each satellite
+            for satellite in satellites:
+
+                # reduce breaks if start and end are equal
+                breaks = self.model_euler[satellite].breaks
+                if breaks[0] == breaks[-1]:
+                    breaks = breaks[0]
+
+                t_break_Euler.append(breaks.reshape((-1, 1)).astype(float))
+                alpha.append(self.model_euler[satellite].coeffs[
+                    0, :, 0].reshape((-1, 1)).astype(float))
+                beta.append(self.model_euler[satellite].coeffs[
+                    0, :, 1].reshape((-1, 1)).astype(float))
+                gamma.append(self.model_euler[satellite].coeffs[
+                    0, :, 2].reshape((-1, 1)).astype(float))
+
+            hdf.write(np.array(t_break_Euler, dtype='object'),
+                      path='/model_Euler/t_break_Euler/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(np.array(alpha, dtype='object'),
+                      path='/model_Euler/alpha/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(np.array(beta, dtype='object'),
+                      path='/model_Euler/beta/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(np.array(gamma, dtype='object'),
+                      path='/model_Euler/gamma/',
+                      filename=filepath, matlab_compatible=True)
+
+        if self.model_cal:
+            # write calibration parameters to matfile for each satellite
+            cal = []
+            for satellite, model in self.model_cal.items():
+                cal.append(model.to_ppdict())
+
+            hdf.write(np.array(cal, dtype=object),
+                      path='/pp_CAL/',
+                      filename=filepath, matlab_compatible=True)
+
+        if self.model_static:
+            # write static internal field model to matfile
+            g = np.ravel(self.model_static.coeffs).reshape((-1, 1))
+
+            hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
+
+        if self.meta:
+            hdf.write(self.meta['params'], path='/params', filename=filepath,
+                      matlab_compatible=True)
+
+        print('CHAOS saved to {}.'.format(
+            os.path.join(os.getcwd(), filepath)))
+
+    @classmethod
+    def from_mat(self, filepath, name=None, satellites=None):
+        """
+        Alternative constructor for creating a :class:`CHAOS` class instance.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to MAT-file containing the CHAOS model.
+        name : str, optional
+            User defined name of the model. Defaults to the filename without
+            the file extension.
+        satellites : list of strings, optional
+            List of satellite names whose Euler angles are stored in the
+            MAT-file. This is needed for correct referencing as this
+            information is not given in the standard CHAOS MAT-file format
+            (defaults to ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
+            'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
+
+        Returns
+        -------
+        model : :class:`CHAOS` instance
+            Fully initialized model.
+
+        Examples
+        --------
+        Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+        directory like this:
+
+        >>> from chaosmagpy import CHAOS
+        >>> model = CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> print(model)
+
+        See Also
+        --------
+        load_CHAOS_matfile
+
+        """
+
+        return load_CHAOS_matfile(filepath, name=name, satellites=satellites)
+
+    @classmethod
+    def from_shc(self, filepath, *, name=None, leap_year=None):
+        """
+        Alternative constructor for creating a :class:`CHAOS` class instance.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to SHC-file.
+        name : str, optional
+            User defined name of the model. Defaults to ``'CHAOS-<version>'``,
+            where <version> is the default in
+            ``basicConfig['params.version']``.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+
+        Returns
+        -------
+        model : :class:`CHAOS` instance
+            Class instance with either the time-dependent or static internal
+            part initialized.
+
+        Examples
+        --------
+        Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
+        working directory, containing the coefficients of time-dependent
+        internal part of the CHAOS-6-x7 model.
+
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_shc('CHAOS-6-x7_tdep.shc')
+        >>> print(model)
+
+        See Also
+        --------
+        load_CHAOS_shcfile
+
+        """
+
+        leap_year = False if leap_year is None else leap_year
+
+        return load_CHAOS_shcfile(filepath, name=name, leap_year=leap_year)
+
+
+def load_CHAOS_matfile(filepath, name=None, satellites=None):
+    """
+    Load CHAOS model from MAT-file.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to MAT-file containing the CHAOS model.
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+    satellites : list of strings, optional
+        List of satellite names whose Euler angles are stored in the MAT-file.
+        This is needed for correct referencing as this information is not
+        given in the standard CHAOS MAT-file format (defaults to
+        ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
+        'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
+
+    Returns
+    -------
+    model : :class:`CHAOS` instance
+        Fully initialized model.
+
+    Examples
+    --------
+    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+    directory like this:
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+    >>> print(model)
+
+    Compute the Gauss coefficients of the time-dependent internal field on
+    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
+    date:
+
+    >>> cp.data_utils.mjd2000(2018, 1, 1)
+    6575.0
+
+    Now, compute the Gauss coefficients:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575.)
+    >>> coeffs
+    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
+
+    Compute only the dipolar part by restricting the spherical harmonic degree
+    with the help of the ``nmax`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
+    >>> coeffs
+    array([-29417.21325337,  -1466.70696158,   4705.96297947])
+
+    Compute the first time derivative of the internal Gauss coefficients in
+    nT/yr with the help of the ``deriv`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
+    >>> coeffs
+    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
+
+    Compute values of the time-dependent internal magnetic field on
+    January 1, 2018 at 0:00 UTC at
+    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
+    (:math:`r=6371.2` km):
+
+    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
+6575., 6371.2, 90., 0.)
+    >>> B_theta
+    array(-27642.31732596)
+
+    See Also
+    --------
+    CHAOS, load_CHAOS_shcfile
+
+    """
+
+    filepath = str(filepath)
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    # define satellite names
+    if satellites is None:
+        satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
+                      'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+
+    mat_contents = du.load_matfile(filepath)
+
+    pp = mat_contents['pp']
+
+    order = int(pp['order'])
+    pieces = int(pp['pieces'])
+    dim = int(pp['dim'])
+    breaks = pp['breaks']
+    coefs = pp['coefs']
+
+    # reshaping coeffs_tdep from 2-D to 3-D: (order, pieces, coefficients)
+    coeffs_tdep = coefs.transpose().reshape((order, pieces, dim))
+
+    # load the static internal field model
+    try:
+        coeffs_static = mat_contents['g'].reshape((1, 1, -1))
+
+    except KeyError as err:
+        warnings.warn(f'Missing static internal field coefficients: {err}')
+        coeffs_static = None
+
+    # load the external field model
+    try:
+        model_ext = mat_contents['model_ext']
+
+    except KeyError as err:
+        warnings.warn(f'Missing external field coefficients: {err}')
+        coeffs_delta = None
+        breaks_delta = None
+        coeffs_gsm = None
+        coeffs_sm = None
+
+    else:
+        # external field (SM): n=1, 2 (n=1 are sm offset time averages!)
+        coeffs_sm = np.copy(model_ext['m_sm'])
+        coeffs_sm[:3] = model_ext['m_Dst']  # replace with m_Dst
+
+        # external field (GSM): n=1, 2
+        n_gsm = int(2)
+        coeffs_gsm = np.zeros((n_gsm*(n_gsm+2),))  # correct number of coeffs
+        # only m=0 are non-zero
+        coeffs_gsm[[0, 3]] = model_ext['m_gsm']
+
+        # coefficients and breaks of external SM offsets for q10, q11, s11
+        breaks_delta = dict()
+        breaks_delta['q10'] = model_ext['t_break_q10']
+        breaks_delta['q11'] = model_ext['t_break_qs11']
+        breaks_delta['s11'] = model_ext['t_break_qs11']
+
+        # reshape to comply with scipy PPoly coefficients
+        coeffs_delta = dict()
+        coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
+        qs11 = model_ext['qs11']
+        coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
+        coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
+
+    # load euler angles
+    try:
+        model_euler = mat_contents['model_Euler']
+
+    except KeyError as err:
+        warnings.warn(f'Missing Euler angles: {err}')
+        coeffs_euler = None
+        breaks_euler = None
+
+    else:
+        # append generic satellite name if more data available or reduce
+        t_break_Euler = model_euler['t_break_Euler']
+        n = len(t_break_Euler)
+        m = len(satellites)
+
+        if n < m:
+            satellites = satellites[:n]
+        elif n > m:
+            for counter in range(m+1, n+1):
+                satellites.append(f'satellite_{counter}')
+
+        # coefficients and breaks of euler angles
+        breaks_euler = dict()
+        for num, satellite in enumerate(satellites):
+            breaks_euler[satellite] = t_break_Euler[num].squeeze()
+
+        coeffs_euler = dict()
+        for num, satellite in enumerate(satellites):
+
+            angles = [model_euler[angle][num] for angle in [
+                'alpha', 'beta', 'gamma']]
+            euler = np.concatenate(angles, axis=-1).astype(float)
+
+            # first: order, second: number of intervals, third: 3 angles
+            coeffs_euler[satellite] = np.expand_dims(euler, axis=0)
+
+    # load calibration parameters
+    try:
+        model_cal = mat_contents['pp_CAL']
+
+    except KeyError as err:
+        warnings.warn(f'Missing calibration parameters: {err}')
+        breaks_cal = None
+        coeffs_cal = None
+
+    else:
+        # only support of single satellite
+        breaks_cal = {'cryosat-2_1': model_cal['breaks']}
+        coeffs_cal = {'cryosat-2_1': model_cal['coefs'].reshape((1, -1, 9))}
+
+    # load additional parameters
+    try:
+        params = mat_contents['params']
+        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+
+    except KeyError as err:
+        warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
+        dict_params = {'Euler_prerotation': None}
+
+    meta = dict(params=dict_params,
+                satellites=tuple(satellites))
+
+    model = CHAOS(breaks=breaks,
+                  order=order,
+                  coeffs_tdep=coeffs_tdep,
+                  coeffs_static=coeffs_static,
+                  coeffs_sm=coeffs_sm,
+                  coeffs_gsm=coeffs_gsm,
+                  breaks_delta=breaks_delta,
+                  coeffs_delta=coeffs_delta,
+                  breaks_euler=breaks_euler,
+                  coeffs_euler=coeffs_euler,
+                  breaks_cal=breaks_cal,
+                  coeffs_cal=coeffs_cal,
+                  name=name,
+                  meta=meta)
+
+    return model
+
+
+def load_CHAOS_shcfile(filepath, name=None, leap_year=None):
+    """
+    Load CHAOS model from SHC-file.
+
+    The file should contain the coefficients of the time-dependent or static
+    internal part of the CHAOS model. In case of the time-dependent part, a
+    reconstruction of the piecewise polynomial is performed.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to SHC-file.
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+    leap_year : {False, True}, optional
+        Take leap year in time conversion into account. By default set to
+        ``False``, so that a conversion factor of 365.25 days per year is
+        used.
+
+    Returns
+    -------
+    model : :class:`CHAOS` instance
+        Class instance with either the time-dependent or static internal part
+        initialized.
+
+    Examples
+    --------
+    Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
+    working directory, containing the coefficients of time-dependent internal
+    part of the CHAOS-6-x7 model.
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.load_CHAOS_shcfile('CHAOS-6-x7_tdep.shc')
+    >>> print(model)
+
+    Compute the Gauss coefficients of the time-dependent internal field on
+    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
+    date:
+
+    >>> cp.data_utils.mjd2000(2018, 1, 1)
+    6575.0
+
+    Now, compute the Gauss coefficients:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575.)
+    >>> coeffs
+    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
+
+    Compute only the dipolar part by restricting the spherical harmonic degree
+    with the help of the ``nmax`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
+    >>> coeffs
+    array([-29417.21325337,  -1466.70696158,   4705.96297947])
+
+    Compute the first time derivative of the internal Gauss coefficients in
+    nT/yr with the help of the ``deriv`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
+    >>> coeffs
+    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
+
+    Compute values of the time-dependent internal magnetic field on
+    January 1, 2018 at 0:00 UTC at
+    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
+    (:math:`r=6371.2` km):
+
+    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
+6575., 6371.2, 90., 0.)
+    >>> B_theta
+    array(-27642.31732596)
+
+    See Also
+    --------
+    CHAOS, load_CHAOS_matfile
+
+    """
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    leap_year = False if leap_year is None else bool(leap_year)
+
+    # create dummy BaseModel since there is no entry point to directly modify
+    # CHAOS.model_tdep or CHAOS.model_static at the moment
+    model = BaseModel.from_shc(filepath, name=name, leap_year=leap_year)
+
+    if (model.pieces == 1) and (model.order == 1):  # static in single bin
+
+        return CHAOS(
+            breaks=model.breaks,
+            coeffs_static=model.coeffs,
+            name=model.name
+        )
+
+    else:  # must be time-dependent, incl. piecewise constant
+
+        return CHAOS(
+            breaks=model.breaks,
+            order=model.order,
+            coeffs_tdep=model.coeffs,
+            name=model.name
+        )
+
+
+def load_CovObs_txtfile(filepath, name=None):
+    """
+    Load the ensemble mean of the internal model from the COV-OBS
+    TXT-file in spline format.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to spline-formatted TXT-file (not part of ChaosMagPy).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    For details on the COV-OBS model (COV-OBS.x2), see the original
+    publication:
+
+    Huder, L., Gillet, N., Finlay, C. C., Hammer, M. D. and H. Tchoungui
+    (2020), "COV-OBS.x2: 180 yr of geomagnetic field evolution from
+    ground-based and satellite observations", Earth, Planets and Space.
+
+    Examples
+    --------
+    Load the ensemble mean internal model and plot the degree-1 secular
+    variation. Here, the model parameter file, e.g. "COV-OBS.x2-int", is in
+    the current working directory.
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_CovObs_txtfile('COV-OBS.x2-int')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        # sample model timespan
+        time = np.linspace(1840., 2020., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
+
+        ax.plot(cp.data_utils.timestamp(time), coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('Time (years)')
+        ax.set_ylabel('nT/yr')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.readlines()
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    tmp = np.fromstring(lines[1], sep=' ')  # read parameters and breaks
+
+    nmax = int(tmp[0])
+    order = int(tmp[2])
+    degree = order - 1  # polynomial degree
+
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)
+
+    # add endpoint multiplicity to conform with scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    data = np.fromstring(' '.join(lines[2:]), sep=' ')
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data.reshape(
+        (breaks.size - order, nmax * (nmax + 2)))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_gufm1_txtfile(filepath, name=None):
+    """
+    Load model parameter file of the gufm1 model.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to TXT-file (provided by the modellers).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    For details on the gufm1 model, see the original publication:
+
+    Andrew Jackson, Art R. T. Jonkers and Matthew R. Walker (2000),
+    "Four centuries of geomagnetic secular variation from historical records",
+    Phil. Trans. R. Soc. A.358957–990, http://doi.org/10.1098/rsta.2000.0569
+
+    Examples
+    --------
+    Load the model and plot the degree-1 secular variation. Here, the
+    model parameter file, e.g. "gufm1", is in the current working directory.
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_gufm1_txtfile('gufm1')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        # sample model timespan 7.5 years away from endpoints
+        time = np.linspace(1590., 1990., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('Time (years)')
+        ax.set_ylabel('nT/yr')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.readlines()
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    data = np.fromstring('  '.join(lines[1:]), sep=' ')
+
+    nmax = int(data[0])
+    order = 4  # hard-coded since not really provided in file
+    nbreaks = int(data[1]) + order  # data[1] is number of B-spline functions?
+    degree = order - 1  # polynomial degree
+
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(data[2:(nbreaks + 2)], leap_year=False)
+
+    # add endpoint multiplicity to "trick" scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(
+        (breaks.size - order, nmax * (nmax + 2)))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_CALS7K_txtfile(filepath, name=None):
+    """
+    Load the model parameter file of the CALS7K model.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to TXT-file (available from the modellers).
+    name : str, optional
+        User defined name of the model. Defaults to the filename.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    More information about the model and a list of relevant publications can be
+    found at `<https://igppweb.ucsd.edu/~cathy/Projects/Holocene/CALS7K/>`_.
+    The model coefficients file can be downloaded from
+    `<https://earthref.org/ERDA/413/>`_.
+
+    Examples
+    --------
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_CALS7K_txtfile('CALS7K.2')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        time = np.linspace(-5000., 1950., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('years')
+        ax.set_ylabel('nT')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.read()  # read everything as a continuous string
+
+    if name is None:
+        # get name with extension
+        name = os.path.basename(filepath)
+
+    # numpy doesn't understand "D" in decimal representation, replace with E
+    data = np.fromstring(lines.replace('D', 'E'), sep=' ', dtype=float)
+
+    # ts = data[0]  # start time
+    # te = data[1]  # end time
+    order = data[2]  # cubic B-splines
+    # discard index 3
+    nmax = int(data[4])  # maximum spherical harmonic degree
+    # discard index 5
+    inspl = int(data[6])  # number of inner B-spline segments
+
+    dim = nmax*(nmax+2)  # number of spherical harmonic coefficients
+    order = 4  # cubic splines
+    degree = order - 1  # polynomial degree
+    nbreaks = inspl + order  # number of breaks
+
+    breaks = data[7:(7+nbreaks)]
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(breaks, leap_year=False)
+
+    # add endpoint multiplicity to "trick" scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, dim))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data[(7+nbreaks):].reshape(
+        (breaks.size - order, dim))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_IGRF_txtfile(filepath, name=None):
+    """
+    Load the IGRF internal field model from the TXT-file with the
+    piecewise-polynomial coefficients.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to the IGRF TXT-file (not part of ChaosMagPy).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    The latest IGRF coefficients can be downloaded at
+    `<https://www.ncei.noaa.gov/products/international-geomagnetic-reference-field>`_.
+
+    Notes
+    -----
+    The field is linearly extrapolated in the 5-year period at the
+    end of the model time interval (i.e. in the period 2020-2025 for IGRF-13)
+    using the predictive secular variation in the IGRF.
+
+    Examples
+    --------
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_IGRF_txtfile('irgf13coeffs.txt')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        time = np.linspace(1900., 2020., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=True)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('years')
+        ax.set_ylabel('nT')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    first_line = True
+    data = np.array([])
+
+    with open(filepath, 'r') as f:
+        for line in f.readlines():
+
+            if line.lstrip().startswith(('#', 'c/s')):
+                continue
+
+            tmp = line.split()  # also splits consecutive whitespaces
+
+            if first_line:  # first non-comment line contains breaks
+                breaks = np.array(tmp[3:-1], dtype=float)
+                breaks = np.append(breaks, breaks[-1] + 5.)
+
+                first_line = False
+
+            else:
+                newline = np.array(tmp[3:], dtype=float)  # strip degree/order
+                data = np.append(data, newline)
+
+    data = np.reshape(data, (-1, breaks.size))
+    data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
+    coeffs = data.T
+
+    order = 2
+    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=True)
+    knots = mu.augment_breaks(breaks_mjd, order)
+
+    model = BaseModel.from_bspline(name, knots, coeffs, order,
+                                   source='internal')
+
+    return model
-- 
2.43.0


From ad5683f29e48d932c20560b10c9538ed2deb0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 02/43] fix: evaluate the last break with the last model piece
 when extrapolating

The derivative at the end of the model period depended on whether another
time of the same call needed extrapolation.
---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index d8aadc2..ba85529 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -204,6 +204,8 @@ class Base(object):
                     for k in range(key):
                         bin[-1-k] = PP(x, nu=k) / factorial(k)
                     PP.extend(bin, np.array([x]))
+                # end point itself belongs to the last piece of the model
+                PP.x[-2:] = np.nextafter(end, np.inf)
 
             else:  # no extrapolation
                 PP.extrapolate = False
-- 
2.43.0


From 9a84e0f4991e7a8b967c30fbc3c1261c2dd56a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 03/43] fix: reject colatitudes outside [0, 180] also if a pole
 is included

For instance theta = [0., 200.] was accepted since the minimum is a pole.
---
 chaosmagpy/model_utils.py | 2338 ++++++++++++++++++-------------------
 1 file changed, 1169 insertions(+), 1169 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..9fa8d1e 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1,1169 +1,1169 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.model_utils` provides functions for analyzing and estimating
-geomagnetic field models in general, and the CHAOS geomagnetic field model in
-particular.
-
-.. autosummary::
-    :toctree: functions
-
-    design_matrix
-    design_gauss
-    colloc_matrix
-    augment_breaks
-    pp_from_bspline
-    synth_from_pp
-    synth_values
-    legendre_poly
-    power_spectrum
-    degree_correlation
-    sensitivity
-
-"""
-
-import numpy as np
-import warnings
-from scipy.interpolate import BSpline, PPoly
-from . import config_utils
-
-
-def design_matrix(knots, order, n_tdep, time, radius, theta, phi,
-                  n_static=None, source=None):
-    """
-    Returns matrices that connect radial, colatitude and azimuthal field
-    components on a grid with `radius`, `theta` (colatitude) and `phi`
-    to the spherical harmonics expansion of a potential.
-
-    The potential is time-dependent on large length-scales (`n` <= `n_tdep`)
-    and static on small length-scales (`n_tdep` < `n` <= `n_static`). The
-    time-dependent part uses a B-spline representation of order `k`.
-
-    Parameters
-    ----------
-    knots : ndarray, shape >= (k+1,)
-        Knot vector with adequate endpoint multiplicity.
-    order : int, positive
-        Order `k` of B-spline basis functions (4 = cubic).
-    n_tdep : int, positive
-        Maximum degree of the time-dependent field.
-    time : ndarray, shape (N,)
-        Time vector of the `N` data points in days.
-    radius : ndarray, shape (N,)
-        Radius vector of the `N` data points in kilometers.
-    theta : ndarray, shape (N,)
-        Data colatitude vector in degrees :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (N,)
-        Data longitude vector in degrees.
-    n_static : int, positive, optional
-        Maximum degree of static field (default is ``None``,
-        `n_static` > `n_tdep`).
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is internal).
-
-    Returns
-    -------
-    G_radius, G_theta, G_phi : ndarray, shape (N, ...)
-        Forward matrix for :math:`B_r`, :math:`B_{\\theta}` and
-        :math:`B_{\\phi}`.
-
-    Raises
-    ------
-    ValueError
-        If degree of static field is smaller than the degree of the time-dep.
-        field. In order to exclude the static field and obtain a purely
-        time-dependent potential, use optional argument ``n_static=None`` or
-        leave out completely.
-
-    See Also
-    --------
-    design_gauss
-
-    """
-
-    assert time.shape == radius.shape == theta.shape == phi.shape
-    assert time.ndim == 1
-    assert np.amin(theta) > 0. and np.amax(theta) < 180.
-
-    n_data = time.size  # number of data points
-
-    if n_static:
-        if n_static < n_tdep:
-            raise ValueError("Degree of static field must be greater than "
-                             "degree of time-dependent field.")
-        elif n_static == n_tdep:
-            warnings.warn("Static and time-dependent field are of same "
-                          "degree. Ignoring static field.")
-
-    if n_static is None:
-        n_static = n_tdep
-
-    if source is None:
-        source = 'internal'
-
-    n_coeff_tdep = n_tdep * (n_tdep + 2)  # number of t-dep field coefficients
-    n_coeff_static = n_static * (n_static + 2)  # number of static field coeff
-
-    # compute matrices that connect harmonics expansion with field values
-    A_radius, A_theta, A_phi = design_gauss(radius, theta, phi,
-                                            nmax=n_static, source=source)
-
-    # compute collocation matrix of B-spline segments
-    collmat = colloc_matrix(time, knots, order)
-    n_segment = collmat.shape[1]  # number of B-spline basis functions
-
-    # allocate memory for output matrices
-    G_radius = np.empty((n_data, (n_segment - 1)*n_coeff_tdep
-                        + n_coeff_static))
-    G_theta = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
-    G_phi = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
-
-    n_col = 0  # counter for columns
-    for coeff in range(n_coeff_tdep):
-        # for each time-dependent expansion coefficient, multiply with
-        # collocation matrix use broadcasting to match shapes
-        G_radius[:, n_col:n_col+n_segment] = A_radius[:, coeff, None] * collmat
-        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff, None] * collmat
-        G_phi[:, n_col:n_col+n_segment] = A_phi[:, coeff, None] * collmat
-
-        n_col += n_segment
-
-    # add static background field
-    G_radius[:, n_col:] = A_radius[:, n_coeff_tdep:n_coeff_static]
-    G_theta[:, n_col:] = A_theta[:, n_coeff_tdep:n_coeff_static]
-    G_phi[:, n_col:] = A_phi[:, n_coeff_tdep:n_coeff_static]
-
-    return G_radius, G_theta, G_phi
-
-
-def colloc_matrix(x, knots, order, deriv=None):
-    """
-    Create collocation matrix of a univariate function on `x` in terms  of a
-    B-spline representation of order `k`.
-
-    The computation of the splines is based on the scipy-package.
-
-    Parameters
-    ----------
-    x : ndarray, shape (N,)
-        `N` points to evaluate the B-spline at.
-    knots : ndarray, shape >= (k+1,)
-        Vector of knots derived from breaks (with appropriate endpoint
-        multiplicity).
-    order : int, positive
-        Order `k` of the B-spline (4 = cubic).
-    deriv: int, positive, optional
-        Derivative of the B-spline partition (defaults to 0).
-
-    Returns
-    -------
-    collmat : ndarray, shape (N, n-k)
-        Collocation matrix, `n` is the size of `knots`.
-
-    See Also
-    --------
-    augment_breaks
-
-    """
-
-    if deriv is None:
-        deriv = 0
-
-    if deriv >= order:
-        return np.zeros((max(x.size, 1), knots.size - order))
-
-    else:
-        # create spline using scipy.interpolate
-        coll = np.empty((max(x.size, 1), knots.size - order))
-
-        for n in range(knots.size - order):
-            c = np.zeros(knots.size - order)
-            c[n] = 1.
-
-            b = BSpline.construct_fast(knots, c, order-1, extrapolate=False)
-
-            coll[:, n] = b(x, nu=deriv)
-
-        return coll
-
-
-def augment_breaks(breaks, order):
-    """
-    Augment a vector of break points and return the knot vector for a
-    B-spline representation of order `k`.
-
-    Parameters
-    ----------
-    breaks: ndarray, shape (n,)
-        1-D array, containing `n` break points (without endpoint repeats).
-    order: int, positive
-        Order `k` of B-spline (4 = cubic).
-
-    Returns
-    -------
-    knots: ndarray, shape (n+2k-2,)
-        1-D array with `k`-times repeated copies of the `breaks`-vector
-        endpoints ``breaks[0]`` and ``breaks[-1]``.
-
-    """
-
-    if isinstance(breaks, np.ndarray) and breaks.ndim > 1:
-        raise ValueError("Breaks must be a 1-D array.")
-
-    degree = order - 1
-    return np.array([breaks[0]]*degree + list(breaks) + [breaks[-1]]*degree)
-
-
-def pp_from_bspline(coeffs, knots, order):
-    """
-    Return a piecewise polynomial from a BSpline representation.
-
-    Parameters
-    ----------
-    coeffs : ndarray, shape (M, D)
-        Bspline coefficients for the `M` B-splines parameterizing
-        `D` dimensions.
-    knots : ndarray, shape (N,)
-        B-spline knots. The knots must have the full endpoint multiplicity.
-        Zero-pad spline coefficients if needed.
-    order : int
-        Order of the B-spline.
-
-    Returns
-    -------
-    coeffs_pp : ndarray, shape (K, P, D)
-        Coefficients of the piecewise polynomial where `K` is the order
-        (``order``), `P` is the number of pieces and `D` is the dimension.
-    breaks : ndarray, shape (P+1,)
-        Break points of the piecewise polynomial.
-
-    """
-
-    degree = order - 1
-    breaks = np.unique(knots)
-    pieces = breaks.size - 1
-    dim = coeffs.shape[-1]
-
-    coeffs_pp = np.empty((order, pieces, dim))
-
-    # have to do it manually for each dimension
-    for d in range(dim):
-
-        bs = BSpline(knots, coeffs[:, d], degree)
-        pp = PPoly.from_spline(bs, extrapolate=False)
-
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
-
-    return coeffs_pp, breaks
-
-
-def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
-                  nmax=None, source=None, deriv=None, grid=None):
-    """
-    Compute radial, colatitude and azimuthal field components from the magnetic
-    potential in terms of a spherical harmonic expansion in form of a
-    piecewise polynomial.
-
-    Parameters
-    ----------
-    breaks : ndarray, shape (m+1,)
-        1-D array, containing `m+1` break points (without endpoint repeats) for
-        `m` intervals.
-    order : int, positive
-        Order `k` of piecewise polynomials (4 = cubic).
-    coeffs : ndarray, shape (k, m, nmax*(nmax+2))
-        Coefficients of the piecewise polynomials, where `m` is the number of
-        polynomial pieces. The trailing dimension is equal to the number of
-        expansion coefficients for each interval.
-    time : ndarray, shape (...)
-        Array containing the time in days.
-    radius : ndarray, shape (...) or float
-        Array containing the radius in kilometers.
-    theta : ndarray, shape (...) or float
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (...) or float
-        Array containing the longitude in degrees.
-    nmax : int, positive, optional
-        Maximum degree harmonic expansion (default is given by ``coeffs``,
-        but can also be smaller, if specified).
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-    deriv : int, positive, optional
-        Derivative to be taken (default is 0).
-    grid : bool, optional
-        If ``True``, field components are computed on a regular grid. Arrays
-        ``theta`` and ``phi`` must have one dimension less than the output grid
-        since the grid will be created as their outer product.
-
-    Returns
-    -------
-    B_radius, B_theta, B_phi : ndarray, shape (...)
-        Radial, colatitude and azimuthal field components.
-
-    See Also
-    --------
-    synth_values
-
-    """
-
-    # handle optional argument: nmax
-    nmax_coeffs = int(np.sqrt(coeffs.shape[-1] + 1) - 1)  # degree for coeffs
-    if nmax is None:
-        nmax = nmax_coeffs
-    elif nmax > nmax_coeffs:
-        warnings.warn('Input nmax = {0} is incompatible with the number of '
-                      'model coefficients. Using nmax = {1} instead.'.format(
-                        nmax, nmax_coeffs))
-        nmax = nmax_coeffs
-
-    # handle optional argument: source
-    source = 'internal' if source is None else source
-
-    # compute SH coefficients from pp-form and take derivatives if needed
-    deriv = 0 if deriv is None else deriv
-
-    # set grid option to false
-    grid = False if grid is None else grid
-
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
-
-    PP = PP.derivative(nu=deriv)
-    gauss_coeffs = PP(time) * 365.25**deriv
-
-    B_radius, B_theta, B_phi = synth_values(
-        gauss_coeffs, radius, theta, phi, nmax=nmax, source=source, grid=grid)
-
-    return B_radius, B_theta, B_phi
-
-
-def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
-                 mmax=None, source=None, grid=None):
-    """
-    Computes radial, colatitude and azimuthal field components from the
-    magnetic potential field in terms of spherical harmonic coefficients.
-
-    Parameters
-    ----------
-
-    coeffs : ndarray, shape (..., M)
-        Coefficients of the spherical harmonic expansion. The last dimension is
-        equal to the number of coefficients.
-    radius : float or ndarray, shape (...)
-        Array containing the radius in kilometers.
-    theta : float or ndarray, shape (...)
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : float or ndarray, shape (...)
-        Array containing the longitude in degrees.
-    nmax : int, positive, optional
-        Maximum degree up to which expansion is to be used (default is given by
-        the last dimension of ``coeffs``, that is, ``M = nmax(nmax+2)``). This
-        value can also be smaller if only coefficients at low degree should
-        contribute.
-    nmin : int, positive, optional
-        Minimum degree of the expansion (defaults to 1). This value must
-        correspond to the minimum degree of the coefficients and cannot be
-        larger.
-    mmax : int, positive, optional
-        Maximum order of the spherical harmonic expansion (defaults to
-        ``nmax``). This value can also be smaller. For example, if only the
-        zonal part of the expansion should be used, set ``mmax = 0``.
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-    grid : bool, optional
-        If ``True``, field components are computed on a regular grid. Arrays
-        ``theta`` and ``phi`` must have one dimension less than the output grid
-        since the grid will be created as their outer product (defaults to
-        ``False``).
-
-    Returns
-    -------
-    B_radius, B_theta, B_phi : ndarray, shape (...)
-        Radial, colatitude and azimuthal field components.
-
-    Warnings
-    --------
-    The function can also evaluate the field components at the geographic
-    poles, i.e. where ``theta == 0.`` or ``theta == 180.``. However, users
-    should be careful when doing this because the vector basis for spherical
-    geocentric coordinates,
-    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
-    depends on longitude, which is not well defined at the poles. That is,
-    at the poles, any value for the longitude maps to the same location in
-    euclidean coordinates but gives a different vector basis in spherical
-    geocentric coordinates. Nonetheless, by choosing a specific value for the
-    longitude at the poles, users can define the vector basis, which then
-    establishes the meaning of the spherical geocentric components returned by
-    this function. The vector basis for the horizontal components is defined as
-
-    .. math::
-
-        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
-            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
-        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
-            \\cos\\phi\\mathbf{e}_y
-
-    Hence, at the geographic north pole as given by ``theta = 0.`` and
-    ``phi = 0.`` (user input), the returned component ``B_theta``
-    will be along the direction :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and
-    ``B_phi`` along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
-    if ``phi = 180.`` is chosen, ``B_theta``
-    will be along :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``B_phi``
-    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
-
-    Notes
-    -----
-    The function can work with different grid shapes, but the inputs have to
-    satisfy NumPy's `broadcasting rules \\
-    <https://docs.scipy.org/doc/numpy-1.15.0/user/basics.broadcasting.html>`_
-    (``grid=False``, default). This also applies to the dimension of the
-    coefficients ``coeffs`` excluding the last dimension.
-
-    The optional parameter ``grid`` is for convenience. If set to ``True``,
-    a singleton dimension is appended (prepended) to ``theta`` (``phi``)
-    for broadcasting to a regular grid. The other inputs ``radius`` and
-    ``coeffs`` must then be broadcastable as before but now with the resulting
-    regular grid.
-
-    Examples
-    --------
-    The most straight forward computation uses a fully specified grid. For
-    example, compute the magnetic field at :math:`N=50` grid points on the
-    surface.
-
-    .. code-block:: python
-
-      import chaosmagpy.model_utils as cpm
-      import numpy as np
-
-      N = 50
-      coeffs = np.ones((3,))  # degree 1 coefficients for all points
-      radius = 6371.2 * np.ones((N,))  # radius of 50 points in km
-      phi = np.linspace(-180., 180., num=N)  # azimuth of 50 points in deg.
-      theta = np.linspace(0., 180., num=N)  # colatitude of 50 points in deg.
-
-      B = cpm.synth_values(coeffs, radius, theta, phi)
-      print([B[num].shape for num in range(3)])  # output shape (N,)
-
-    Instead of `N` points, compute the field on a regular
-    :math:`N\\times N`-grid in azimuth and colatitude (slow).
-
-    .. code-block:: python
-
-      radius_grid = 6371.2 * np.ones((N, N))
-      phi_grid, theta_grid = np.meshgrid(phi, theta)  # grid of shape (N, N)
-
-      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    But this is slow since some computations on the grid are repeatedly done.
-    The preferred method is to use NumPy's broadcasting rules (fast).
-
-    .. code-block:: python
-
-      radius_grid = 6371.2  # float, () or (1,)-shaped array broadcasted to NxN
-      theta_grid = theta[:, None]  # append singleton: (N, 1)
-      phi_grid = phi[None, :]  # prepend singleton: (1, N)
-
-      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    For convenience, you can do the same by using ``grid=True`` option, which
-    appends a singleton dimension to ``theta`` and inserts a singleton
-    dimension at the second to last position in the shape of ``phi``.
-
-    .. code-block:: python
-
-      B = cpm.synth_values(coeffs, radius_grid, theta, phi, grid=True)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    Remember that ``grid=False`` (default) will result in
-    (N,)-shaped outputs as in the first example.
-
-    """
-
-    # ensure ndarray inputs
-    coeffs = np.asarray(coeffs, dtype=float)
-    radius = (np.asarray(radius, dtype=float)
-              / config_utils.basicConfig['params.r_surf'])
-    theta = np.asarray(theta, dtype=float)
-    phi = np.asarray(phi, dtype=float)
-
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
-
-    if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
-            warnings.warn('Input coordinates include the poles.')
-            poles = True
-        else:
-            raise ValueError('Colatitude outside bounds [0, 180].')
-    else:
-        poles = False
-
-    nmin = 1 if nmin is None else int(nmin)
-    assert nmin > 0, 'The value of "nmin" must be greater than zero.'
-
-    dim = coeffs.shape[-1]
-
-    # handle nmax and mmax
-    if (nmax is None) and (mmax is None):
-        nmax = int(np.sqrt(dim + nmin**2) - 1)
-        mmax = nmax
-
-    elif mmax is None:  # but nmax given
-        mmax = nmax
-
-    elif nmax is None:  # but mmax given
-
-        if mmax >= (nmin-1):
-            nmax = int((dim - mmax*(mmax+2) + nmin**2 - 1) / (2*mmax+1) + mmax)
-
-        else:
-            nmax = int(dim / (2*mmax+1) + nmin - 1)
-
-    if nmax < nmin:
-        raise ValueError(f'Nothing to compute: nmax ({nmax}) < nmin ({nmin}).')
-
-    # handle optional argument: source
-    if source is None:
-        source = 'internal'
-
-    # handle grid option
-    grid = False if grid is None else grid
-
-    # manually broadcast input grid on surface
-    if grid:
-        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension
-        phi = np.expand_dims(phi, axis=-2)  # insert singleton before last
-
-    # get shape of broadcasted result
-    try:
-        b = np.broadcast(
-            radius, theta, phi, np.broadcast_to(0, coeffs.shape[:-1]))
-
-    except ValueError:
-        print('Cannot broadcast grid shapes (excl. last dimension of coeffs):')
-        print(f'radius: {radius.shape}')
-        print(f'theta:  {theta.shape}')
-        print(f'phi:    {phi.shape}')
-        print(f'coeffs: {coeffs.shape[:-1]}')
-        raise
-
-    grid_shape = b.shape
-
-    # initialize radial dependence given the source
-    if source == 'internal':
-        r_n = radius**(-(nmin+2))
-    elif source == 'external':
-        r_n = radius**(nmin-1)
-    else:
-        raise ValueError("Source must be either 'internal' or 'external'.")
-
-    # compute associated Legendre polynomials as (n, m, theta-points)-array
-    Pnm = legendre_poly(nmax, theta)
-
-    # save sinth for fast access
-    sinth = Pnm[1, 1]
-
-    # find the poles
-    if poles:
-        where_poles = (theta == 0.) | (theta == 180.)
-
-    # convert phi to radians
-    phi = np.radians(phi)
-
-    # allocate arrays in memory
-    B_radius = np.zeros(grid_shape)
-    B_theta = np.zeros(grid_shape)
-    B_phi = np.zeros(grid_shape)
-
-    num = 0
-    for n in range(nmin, nmax+1):
-
-        if source == 'internal':
-            B_radius += (n+1) * Pnm[n, 0] * r_n * coeffs[..., num]
-        else:
-            B_radius += -n * Pnm[n, 0] * r_n * coeffs[..., num]
-
-        B_theta += -Pnm[0, n+1] * r_n * coeffs[..., num]
-
-        num += 1
-        for m in range(1, min(n, mmax)+1):
-
-            cmp = np.cos(m*phi)
-            smp = np.sin(m*phi)
-
-            if source == 'internal':
-                B_radius += ((n+1) * Pnm[n, m] * r_n
-                             * (coeffs[..., num] * cmp
-                                + coeffs[..., num+1] * smp))
-            else:
-                B_radius += -(n * Pnm[n, m] * r_n
-                              * (coeffs[..., num] * cmp
-                                 + coeffs[..., num+1] * smp))
-
-            B_theta += (-Pnm[m, n+1] * r_n
-                        * (coeffs[..., num] * cmp
-                           + coeffs[..., num+1] * smp))
-
-            # need special treatment at the poles because Pnm/sinth = 0/0 for
-            # theta in {0., 180.},
-            # use L'Hopital's rule to take the limit:
-            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
-            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
-            # theta=180.); k = costh = P[1, 0] at poles for convenience
-            if poles:
-                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
-                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
-                div_Pnm[~where_poles] /= sinth[~where_poles]
-            else:
-                div_Pnm = Pnm[n, m] / sinth
-
-            B_phi += (m * div_Pnm * r_n
-                      * (coeffs[..., num] * smp
-                         - coeffs[..., num+1] * cmp))
-
-            num += 2
-
-        if source == 'internal':
-            r_n = r_n / radius  # equivalent to r_n = radius**(-(n+2))
-        else:
-            r_n = r_n * radius  # equivalent to r_n = radius**(n-1)
-
-    return B_radius, B_theta, B_phi
-
-
-def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
-                 source=None):
-    """
-    Computes matrices to connect the radial, colatitude and azimuthal field
-    components to the magnetic potential field in terms of spherical harmonic
-    coefficients (Schmidt quasi-normalized).
-
-    Parameters
-    ----------
-
-    radius : ndarray, shape (...)
-        Array containing the radius in kilometers.
-    theta : ndarray, shape (...)
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (...)
-        Array containing the longitude in degrees.
-    nmax : int, positive
-        Maximum degree of the sphercial harmonic expansion.
-    nmin : int, positive, optional
-        Minimum degree of the sphercial harmonic expansion (defaults to 1).
-    mmax : int, positive, optional
-        Maximum order of the spherical harmonic expansion (defaults to
-        ``nmax``). For ``mmax = 0``, for example, only the zonal terms are
-        returned.
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-
-    Returns
-    -------
-    A_radius, A_theta, A_phi : ndarray, shape (..., M)
-        Matrices for radial, colatitude and azimuthal field components. The
-        second dimension ``M`` varies depending on ``nmax``, ``nmin`` and
-        ``mmax``.
-
-    Warnings
-    --------
-    The function can also return the design matrix for the field components at
-    the geographic poles, i.e. where ``theta == 0.`` or ``theta == 180.``.
-    However, users should be careful when doing this because the vector basis
-    for spherical geocentric coordinates,
-    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
-    depends on longitude, which is not well defined at the poles. That is,
-    at the poles, any value for the longitude maps to the same location in
-    euclidean coordinates but gives a different vector basis in spherical
-    geocentric coordinates. Nonetheless, by choosing a specific value for the
-    longitude at the poles, users can define the vector basis, which then
-    establishes the meaning of the spherical geocentric components. The vector
-    basis for the horizontal components is defined as
-
-    .. math::
-
-        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
-            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
-        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
-            \\cos\\phi\\mathbf{e}_y
-
-    Hence, at the geographic north pole as given by ``theta = 0.`` and
-    ``phi = 0.`` (user input), the returned design matrix ``A_theta``
-    will be for components along the direction
-    :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and ``A_phi`` for components
-    along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
-    if ``phi = 180.`` is chosen, ``A_theta`` will be for components along
-    :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``A_phi``
-    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
-
-    Examples
-    --------
-    Create the design matrices given 4 locations on the Earth's surface:
-
-    >>> r = 6371.2
-    >>> theta = np.array([90., 100., 110., 120.])
-    >>> phi = 0.
-    >>> A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=1)
-    >>> A_radius
-    array([[ 1.22464680e-16, 2.00000000e+00, 0.00000000e+00],
-           [-3.47296355e-01, 1.96961551e+00, 0.00000000e+00],
-           [-6.84040287e-01, 1.87938524e+00, 0.00000000e+00],
-           [-1.00000000e+00, 1.73205081e+00, 0.00000000e+00]])
-
-    Say, only the axial dipole coefficient is non-zero, what is the magnetic
-    field in terms of spherical geocentric components?
-
-    >>> m = np.array([-30000, 0., 0.])  # model coefficients in nT
-    >>> Br = A_radius @ m; Br
-    array([-3.67394040e-12, 1.04188907e+04, 2.05212086e+04, 3.00000000e+04])
-    >>> Bt = A_theta @ m; Bt
-    array([-30000. , -29544.23259037, -28190.77862358, -25980.76211353])
-    >>> Bp = A_phi @ m; Bp
-    array([0., 0., 0., 0.])
-
-    A more complete example is given below:
-
-    .. code-block:: python
-
-        import numpy as np
-        from chaosmagpy.model_utils import design_gauss, synth_values
-
-        nmax = 5  # desired truncation degree, i.e. 35 model coefficients
-        coeffs = np.arange(35)  # example model coefficients
-
-        # example locations
-        N = 10
-        radius = 6371.2  # Earth's surface
-        phi = np.linspace(-180., 180., num=N)  # azimuth in degrees
-        theta = np.linspace(1., 179., num=N)  # colatitude in degrees
-
-        # compute design matrices to compute predictions of the
-        # field components from the model coefficients, each is of shape N x 35
-        A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=nmax)
-
-        # magnetic components computed from the model
-        Br_pred = A_radius @ coeffs
-        Bt_pred = A_theta @ coeffs
-        Bp_pred = A_phi @ coeffs
-
-        # compute the magnetic components directly from the coefficients
-        Br, Bt, Bp = synth_values(coeffs, radius, theta, phi)
-        np.linalg.norm(Br - Br_pred)  # approx 0.
-        np.linalg.norm(Bt - Bt_pred)  # approx 0.
-        np.linalg.norm(Bp - Bp_pred)  # approx 0.
-
-    """
-
-    # ensure ndarray inputs
-    radius = (np.asarray(radius, dtype=float)
-              / config_utils.basicConfig['params.r_surf'])
-    theta = np.asarray(theta, dtype=float)
-    phi = np.asarray(phi, dtype=float)
-
-    # get shape of broadcasted result
-    try:
-        b = np.broadcast(radius, theta, phi)
-
-    except ValueError:
-        print('Cannot broadcast grid shapes:')
-        print(f'radius: {radius.shape}')
-        print(f'theta:  {theta.shape}')
-        print(f'phi:    {phi.shape}')
-        raise
-
-    shape = b.shape
-
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
-
-    # check if poles are included
-    if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
-            warnings.warn('Input coordinates include the poles.')
-            poles = True
-        else:
-            raise ValueError('Colatitude outside bounds [0, 180].')
-    else:
-        poles = False
-
-    # set internal source as default
-    if source is None:
-        source = 'internal'
-
-    assert nmax > 0, '"nmax" must be greater than zero.'
-
-    nmin = 1 if nmin is None else int(nmin)
-    assert nmin <= nmax, '"nmin" must be smaller than "nmax".'
-    assert nmin > 0, '"nmin" must be greater than zero.'
-
-    mmax = nmax if mmax is None else int(mmax)
-    assert mmax <= nmax, '"mmax" must be smaller than "nmax".'
-    assert mmax >= 0, '"mmax" must be greater than or equal to zero.'
-
-    # initialize radial dependence given the source
-    if source == 'internal':
-        r_n = radius**(-(nmin+2))
-    elif source == 'external':
-        r_n = radius**(nmin-1)
-    else:
-        raise ValueError("Source must be either 'internal' or 'external'.")
-
-    # compute associated Legendre polynomials as (n, m, theta-points)-array
-    Pnm = legendre_poly(nmax, theta)
-    sinth = Pnm[1, 1]
-
-    phi = np.radians(phi)
-
-    # find the poles
-    if poles:
-        where_poles = (theta == 0.) | (theta == 180.)
-
-    # compute the number of dimensions based on nmax, nmin, mmax
-    if mmax >= (nmin-1):
-        dim = int(mmax*(mmax+2) + (nmax-mmax)*(2*mmax+1) - nmin**2 + 1)
-    else:
-        dim = int((nmax-nmin+1)*(2*mmax+1))
-
-    # allocate A_radius, A_theta, A_phi in memeory
-    A_radius = np.zeros(shape + (dim,))
-    A_theta = np.zeros(shape + (dim,))
-    A_phi = np.zeros(shape + (dim,))
-
-    num = 0
-    for n in range(nmin, nmax+1):
-
-        if source == 'internal':
-            A_radius[..., num] = (n+1) * Pnm[n, 0] * r_n
-        else:
-            A_radius[..., num] = -n * Pnm[n, 0] * r_n
-
-        A_theta[..., num] = -Pnm[0, n+1] * r_n
-
-        num += 1
-        for m in range(1, min(n, mmax)+1):
-
-            cmp = np.cos(m*phi)
-            smp = np.sin(m*phi)
-
-            if source == 'internal':
-                A_radius[..., num] = (n+1) * Pnm[n, m] * r_n * cmp
-                A_radius[..., num+1] = (n+1) * Pnm[n, m] * r_n * smp
-            else:
-                A_radius[..., num] = -n * Pnm[n, m] * r_n * cmp
-                A_radius[..., num+1] = -n * Pnm[n, m] * r_n * smp
-
-            A_theta[..., num] = -Pnm[m, n+1] * r_n * cmp
-            A_theta[..., num+1] = -Pnm[m, n+1] * r_n * smp
-
-            # need special treatment at the poles because Pnm/sinth = 0/0 for
-            # theta in {0., 180.},
-            # use L'Hopital's rule to take the limit:
-            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
-            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
-            # theta=180.); k = costh = P[1, 0] at poles for convenience
-            if poles:
-                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
-                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
-                div_Pnm[~where_poles] /= sinth[~where_poles]
-            else:
-                div_Pnm = Pnm[n, m] / sinth
-
-            A_phi[..., num] = m * div_Pnm * r_n * smp
-            A_phi[..., num+1] = -m * div_Pnm * r_n * cmp
-
-            num += 2
-
-        # update radial dependence given the source
-        if source == 'internal':
-            r_n = r_n / radius
-        else:
-            r_n = r_n * radius
-
-    return A_radius, A_theta, A_phi
-
-
-def legendre_poly(nmax, theta):
-    """
-    Returns associated Legendre polynomials :math:`P_n^m(\\cos\\theta)`
-    (Schmidt quasi-normalized) and the derivative
-    :math:`dP_n^m(\\cos\\theta)/d\\theta` evaluated at :math:`\\theta`.
-
-    Parameters
-    ----------
-    nmax : int, positive
-        Maximum degree of the spherical expansion.
-    theta : ndarray, shape (...)
-        Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`
-        of arbitrary shape.
-
-    Returns
-    -------
-    Pnm : ndarray, shape (n, m, ...)
-          Evaluated values and derivatives, grid shape is appended as trailing
-          dimensions. :math:`P_n^m(\\cos\\theta)` := ``Pnm[n, m, ...]`` and
-          :math:`dP_n^m(\\cos\\theta)/d\\theta` := ``Pnm[m, n+1, ...]``
-
-    References
-    ----------
-    Based on Equations 26-29 and Table 2 in:
-
-    Langel, R. A., "Geomagnetism - The main field", Academic Press, 1987,
-    chapter 4
-
-    """
-
-    costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
-
-    Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
-    Pnm[0, 0] = 1.  # is copied into trailing dimensions
-    Pnm[1, 1] = sinth  # write theta into trailing dimenions via broadcasting
-
-    rootn = np.sqrt(np.arange(2 * nmax**2 + 1))
-
-    # Recursion relations after Langel "The Main Field" (1987),
-    # eq. (27) and Table 2 (p. 256)
-    for m in range(nmax):
-        Pnm_tmp = rootn[m+m+1] * Pnm[m, m]
-        Pnm[m+1, m] = costh * Pnm_tmp
-
-        if m > 0:
-            Pnm[m+1, m+1] = sinth*Pnm_tmp / rootn[m+m+2]
-
-        for n in range(m+2, nmax+1):
-            d = n * n - m * m
-            e = n + n - 1
-            Pnm[n, m] = ((e * costh * Pnm[n-1, m] - rootn[d-e] * Pnm[n-2, m])
-                         / rootn[d])
-
-    # dP(n,m) = Pnm(m,n+1) is the derivative of P(n,m) vrt. theta
-    Pnm[0, 2] = -Pnm[1, 1]
-    Pnm[1, 2] = Pnm[1, 0]
-    for n in range(2, nmax+1):
-        Pnm[0, n+1] = -np.sqrt((n*n + n) / 2) * Pnm[n, 1]
-        Pnm[1, n+1] = ((np.sqrt(2 * (n*n + n)) * Pnm[n, 0]
-                       - np.sqrt((n*n + n - 2)) * Pnm[n, 2]) / 2)
-
-        for m in range(2, n):
-            Pnm[m, n+1] = (0.5*(np.sqrt((n + m) * (n - m + 1)) * Pnm[n, m-1]
-                           - np.sqrt((n + m + 1) * (n - m)) * Pnm[n, m+1]))
-
-        Pnm[n, n+1] = np.sqrt(2 * n) * Pnm[n, n-1] / 2
-
-    return Pnm
-
-
-def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
-    """
-    Compute the spatial power spectrum.
-
-    Parameters
-    ----------
-    coeffs : ndarray, shape (..., N*(N+2))
-        Spherical harmonic coefficients for degree `N`.
-    radius : float, optional
-        Radius in kilometers (defaults to mean Earth's surface radius).
-        It has no effect for ``source='toroidal'``.
-    nmax : int, optional
-        Maximum spherical degree (defaults to `N`).
-    source : {'internal', 'external', 'toroidal'}
-        Source of the field model (defaults to internal).
-    axis : int, optional
-        Axis of ``coeffs`` along which to compute the spatial power spectrum
-        (defaults to -1, last dimension of ``coeffs``).
-
-    Returns
-    -------
-    W_n : ndarray, shape (..., ``nmax``)
-        Power spectrum for degrees up to degree ``nmax``
-
-    Notes
-    -----
-    The spatial power spectrum for a potential field is defined as
-
-    .. math::
-
-        W_n(r) &= \\langle|\\mathbf{B}|^2\\rangle
-             = \\frac{1}{4\\pi}\\iint_\\Omega |\\mathbf{B}|^2 \\mathrm{d}
-               \\Omega \\\\
-             &= W_n^\\mathrm{i}(r) + W_n^\\mathrm{e}(r) + W_n^\\mathrm{T}
-
-    where the internal :math:`W_n^\\mathrm{i}`, external
-    :math:`W_n^\\mathrm{e}` and the non-potential toroidal
-    :math:`W_n^\\mathrm{T}` spatial power spectra are
-
-    .. math::
-
-        W_n^\\mathrm{i}(r) &= (n+1)\\left(\\frac{a}{r}\\right)^{2n+4}
-                              \\sum_{m=0}^n [(g_n^m)^2 + (h_n^m)^2] \\\\
-        W_n^\\mathrm{e}(r) &= n\\left(\\frac{r}{a}\\right)^{2n-2}\\sum_{m=0}^n
-                              [(q_n^m)^2 + (s_n^m)^2] \\\\
-        W_n^\\mathrm{T}    &= \\frac{n(n+1)}{2n+1}\\sum_{m=0}^n
-                              [(T_n^{m,c})^2 + (T_n^{m,s})^2]
-
-    References
-    ----------
-    Sabaka, T. J.; Hulot, G. & Olsen, N.,
-    "Mathematical properties relevant to geomagnetic field modeling",
-    Handbook of geomathematics, Springer, 2010, 503-538
-
-    """
-
-    axis = -1 if axis is None else int(axis)
-    if radius is None:
-        r = 1
-    else:
-        r = config_utils.basicConfig['params.r_surf'] / radius
-
-    N = int(np.sqrt(coeffs.shape[axis] + 1) - 1)  # maximum degree
-
-    if nmax is None:
-        nmax = N
-    elif nmax > N:
-        print(f'Incompatible maximum degree nmax = {nmax}, '
-              f'setting nmax to {N}.')
-        nmax = N
-
-    source = 'internal' if source is None else source
-
-    if source == 'internal':
-        def factor(n, r):
-            return (n+1) * r**(2*n+4)
-    elif source == 'external':
-        def factor(n, r):
-            return n * r**(-(2*n-2))
-    elif source == 'toroidal':
-        def factor(n, _):
-            return n*(n+1) / (2*n+1)
-    else:
-        raise ValueError(
-            'Unknown source. Use `internal`, `external` or `toroidal`.')
-
-    shape = list(coeffs.shape)
-    shape[axis] = nmax  # replace dim of axis with nmax
-    W_n = np.empty(shape)
-
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-
-        slc1 = coeffs.ndim*[slice(None), ]  # index for summation
-        slc1[axis] = slice(min, max)
-
-        slc2 = coeffs.ndim*[slice(None), ]  # index for insertion into output
-        slc2[axis] = n-1
-
-        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,
-                                               axis=axis)
-
-    return W_n
-
-
-def degree_correlation(coeffs_1, coeffs_2):
-    """
-    Correlation per spherical harmonic degree between two models 1 and 2.
-
-    Parameters
-    ----------
-    coeffs_1, coeffs_2 : ndarray, shape (N,)
-        Two sets of coefficients of equal length `N`.
-
-    Returns
-    -------
-    C_n : ndarray, shape (nmax,)
-        Degree correlation of the two models. There are `N = nmax(nmax+2)`
-        coefficients.
-
-    """
-
-    if coeffs_1.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_1.ndim} != 1)')
-
-    if coeffs_2.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_2.ndim} != 1)')
-
-    if coeffs_1.size != coeffs_2.size:
-        raise ValueError(
-            'Number of coefficients must be the same '
-            '({0} != {1}).'.format(coeffs_1.size, coeffs_2.size))
-
-    nmax = int(np.sqrt(coeffs_1.size + 1) - 1)
-
-    C_n = np.zeros((nmax,))
-    R_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_1
-    S_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_2
-
-    coeffs_12 = coeffs_1*coeffs_2
-
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-        R_n[n-1] = np.sum(coeffs_1[min:max]**2)
-        S_n[n-1] = np.sum(coeffs_2[min:max]**2)
-        C_n[n-1] = (np.sum(coeffs_12[min:max]) / np.sqrt(R_n[n-1]*S_n[n-1]))
-
-    return C_n
-
-
-def sensitivity(coeffs, coeffs_true):
-    """
-    Sensitivity (degree normalized error) of the input coefficients with
-    respect to the target/true coefficients.
-
-    Parameters
-    ----------
-    coeffs: ndarray, shape (N,)
-        Input spherical harmonic coefficients.
-    coeffs_true: ndarray, shape (N,)
-        Target/true spherical harmonic coefficients.
-
-    Returns
-    -------
-    S: ndarray, shape (N,)
-        Sensitivity of ``coeffs`` with respect to ``coeffs_true``.
-
-    Examples
-    --------
-    >>> import chaosmagpy as cp
-    >>> import numpy as np
-    >>> coeffs = np.array([1., 2., 5.])  # estimated degree 1 coefficients
-    >>> coeffs_true = np.array([1., 2., 3.])  # target degree 1 coefficients
-    >>> cp.model_utils.sensitivity(coeffs, coeffs_true)
-    array([0., 0., 0.63245553])
-
-    """
-    if coeffs.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs.ndim} != 1)')
-
-    if coeffs_true.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_true.ndim} != 1)')
-
-    if coeffs.size != coeffs_true.size:
-        raise ValueError(
-            'Number of coefficients must be the same '
-            '({0} != {1}).'.format(coeffs.size, coeffs_true.size))
-
-    nmax = int(np.sqrt(coeffs.size + 1) - 1)
-
-    S = coeffs - coeffs_true
-
-    # apply degree-dependent scaling
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-
-        S[min:max] *= 1. / np.sqrt(np.sum(coeffs_true[min:max]**2) / (2*n + 1))
-
-    return S
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.model_utils` provides functions for analyzing and estimating
+geomagnetic field models in general, and the CHAOS geomagnetic field model in
+particular.
+
+.. autosummary::
+    :toctree: functions
+
+    design_matrix
+    design_gauss
+    colloc_matrix
+    augment_breaks
+    pp_from_bspline
+    synth_from_pp
+    synth_values
+    legendre_poly
+    power_spectrum
+    degree_correlation
+    sensitivity
+
+"""
+
+import numpy as np
+import warnings
+from scipy.interpolate import BSpline, PPoly
+from . import config_utils
+
+
+def design_matrix(knots, order, n_tdep, time, radius, theta, phi,
+                  n_static=None, source=None):
+    """
+    Returns matrices that connect radial, colatitude and azimuthal field
+    components on a grid with `radius`, `theta` (colatitude) and `phi`
+    to the spherical harmonics expansion of a potential.
+
+    The potential is time-dependent on large length-scales (`n` <= `n_tdep`)
+    and static on small length-scales (`n_tdep` < `n` <= `n_static`). The
+    time-dependent part uses a B-spline representation of order `k`.
+
+    Parameters
+    ----------
+    knots : ndarray, shape >= (k+1,)
+        Knot vector with adequate endpoint multiplicity.
+    order : int, positive
+        Order `k` of B-spline basis functions (4 = cubic).
+    n_tdep : int, positive
+        Maximum degree of the time-dependent field.
+    time : ndarray, shape (N,)
+        Time vector of the `N` data points in days.
+    radius : ndarray, shape (N,)
+        Radius vector of the `N` data points in kilometers.
+    theta : ndarray, shape (N,)
+        Data colatitude vector in degrees :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (N,)
+        Data longitude vector in degrees.
+    n_static : int, positive, optional
+        Maximum degree of static field (default is ``None``,
+        `n_static` > `n_tdep`).
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is internal).
+
+    Returns
+    -------
+    G_radius, G_theta, G_phi : ndarray, shape (N, ...)
+        Forward matrix for :math:`B_r`, :math:`B_{\\theta}` and
+        :math:`B_{\\phi}`.
+
+    Raises
+    ------
+    ValueError
+        If degree of static field is smaller than the degree of the time-dep.
+        field. In order to exclude the static field and obtain a purely
+        time-dependent potential, use optional argument ``n_static=None`` or
+        leave out completely.
+
+    See Also
+    --------
+    design_gauss
+
+    """
+
+    assert time.shape == radius.shape == theta.shape == phi.shape
+    assert time.ndim == 1
+    assert np.amin(theta) > 0. and np.amax(theta) < 180.
+
+    n_data = time.size  # number of data points
+
+    if n_static:
+        if n_static < n_tdep:
+            raise ValueError("Degree of static field must be greater than "
+                             "degree of time-dependent field.")
+        elif n_static == n_tdep:
+            warnings.warn("Static and time-dependent field are of same "
+                          "degree. Ignoring static field.")
+
+    if n_static is None:
+        n_static = n_tdep
+
+    if source is None:
+        source = 'internal'
+
+    n_coeff_tdep = n_tdep * (n_tdep + 2)  # number of t-dep field coefficients
+    n_coeff_static = n_static * (n_static + 2)  # number of static field coeff
+
+    # compute matrices that connect harmonics expansion with field values
+    A_radius, A_theta, A_phi = design_gauss(radius, theta, phi,
+                                            nmax=n_static, source=source)
+
+    # compute collocation matrix of B-spline segments
+    collmat = colloc_matrix(time, knots, order)
+    n_segment = collmat.shape[1]  # number of B-spline basis functions
+
+    # allocate memory for output matrices
+    G_radius = np.empty((n_data, (n_segment - 1)*n_coeff_tdep
+                        + n_coeff_static))
+    G_theta = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
+    G_phi = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
+
+    n_col = 0  # counter for columns
+    for coeff in range(n_coeff_tdep):
+        # for each time-dependent expansion coefficient, multiply with
+        # collocation matrix use broadcasting to match shapes
+        G_radius[:, n_col:n_col+n_segment] = A_radius[:, coeff, None] * collmat
+        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff, None] * collmat
+        G_phi[:, n_col:n_col+n_segment] = A_phi[:, coeff, None] * collmat
+
+        n_col += n_segment
+
+    # add static background field
+    G_radius[:, n_col:] = A_radius[:, n_coeff_tdep:n_coeff_static]
+    G_theta[:, n_col:] = A_theta[:, n_coeff_tdep:n_coeff_static]
+    G_phi[:, n_col:] = A_phi[:, n_coeff_tdep:n_coeff_static]
+
+    return G_radius, G_theta, G_phi
+
+
+def colloc_matrix(x, knots, order, deriv=None):
+    """
+    Create collocation matrix of a univariate function on `x` in terms  of a
+    B-spline representation of order `k`.
+
+    The computation of the splines is based on the scipy-package.
+
+    Parameters
+    ----------
+    x : ndarray, shape (N,)
+        `N` points to evaluate the B-spline at.
+    knots : ndarray, shape >= (k+1,)
+        Vector of knots derived from breaks (with appropriate endpoint
+        multiplicity).
+    order : int, positive
+        Order `k` of the B-spline (4 = cubic).
+    deriv: int, positive, optional
+        Derivative of the B-spline partition (defaults to 0).
+
+    Returns
+    -------
+    collmat : ndarray, shape (N, n-k)
+        Collocation matrix, `n` is the size of `knots`.
+
+    See Also
+    --------
+    augment_breaks
+
+    """
+
+    if deriv is None:
+        deriv = 0
+
+    if deriv >= order:
+        return np.zeros((max(x.size, 1), knots.size - order))
+
+    else:
+        # create spline using scipy.interpolate
+        coll = np.empty((max(x.size, 1), knots.size - order))
+
+        for n in range(knots.size - order):
+            c = np.zeros(knots.size - order)
+            c[n] = 1.
+
+            b = BSpline.construct_fast(knots, c, order-1, extrapolate=False)
+
+            coll[:, n] = b(x, nu=deriv)
+
+        return coll
+
+
+def augment_breaks(breaks, order):
+    """
+    Augment a vector of break points and return the knot vector for a
+    B-spline representation of order `k`.
+
+    Parameters
+    ----------
+    breaks: ndarray, shape (n,)
+        1-D array, containing `n` break points (without endpoint repeats).
+    order: int, positive
+        Order `k` of B-spline (4 = cubic).
+
+    Returns
+    -------
+    knots: ndarray, shape (n+2k-2,)
+        1-D array with `k`-times repeated copies of the `breaks`-vector
+        endpoints ``breaks[0]`` and ``breaks[-1]``.
+
+    """
+
+    if isinstance(breaks, np.ndarray) and breaks.ndim > 1:
+        raise ValueError("Breaks must be a 1-D array.")
+
+    degree = order - 1
+    return np.array([breaks[0]]*degree + list(breaks) + [breaks[-1]]*degree)
+
+
+def pp_from_bspline(coeffs, knots, order):
+    """
+    Return a piecewise polynomial from a BSpline representation.
+
+    Parameters
+    ----------
+    coeffs : ndarray, shape (M, D)
+        Bspline coefficients for the `M` B-splines parameterizing
+        `D` dimensions.
+    knots : ndarray, shape (N,)
+        B-spline knots. The knots must have the full endpoint multiplicity.
+        Zero-pad spline coefficients if needed.
+    order : int
+        Order of the B-spline.
+
+    Returns
+    -------
+    coeffs_pp : ndarray, shape (K, P, D)
+        Coefficients of the piecewise polynomial where `K` is the order
+        (``order``), `P` is the number of pieces and `D` is the dimension.
+    breaks : ndarray, shape (P+1,)
+        Break points of the piecewise polynomial.
+
+    """
+
+    degree = order - 1
+    breaks = np.unique(knots)
+    pieces = breaks.size - 1
+    dim = coeffs.shape[-1]
+
+    coeffs_pp = np.empty((order, pieces, dim))
+
+    # have to do it manually for each dimension
+    for d in range(dim):
+
+        bs = BSpline(knots, coeffs[:, d], degree)
+        pp = PPoly.from_spline(bs, extrapolate=False)
+
+        # remove endpoint multiplicities
+        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+
+    return coeffs_pp, breaks
+
+
+def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
+                  nmax=None, source=None, deriv=None, grid=None):
+    """
+    Compute radial, colatitude and azimuthal field components from the magnetic
+    potential in terms of a spherical harmonic expansion in form of a
+    piecewise polynomial.
+
+    Parameters
+    ----------
+    breaks : ndarray, shape (m+1,)
+        1-D array, containing `m+1` break points (without endpoint repeats) for
+        `m` intervals.
+    order : int, positive
+        Order `k` of piecewise polynomials (4 = cubic).
+    coeffs : ndarray, shape (k, m, nmax*(nmax+2))
+        Coefficients of the piecewise polynomials, where `m` is the number of
+        polynomial pieces. The trailing dimension is equal to the number of
+        expansion coefficients for each interval.
+    time : ndarray, shape (...)
+        Array containing the time in days.
+    radius : ndarray, shape (...) or float
+        Array containing the radius in kilometers.
+    theta : ndarray, shape (...) or float
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (...) or float
+        Array containing the longitude in degrees.
+    nmax : int, positive, optional
+        Maximum degree harmonic expansion (default is given by ``coeffs``,
+        but can also be smaller, if specified).
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+    deriv : int, positive, optional
+        Derivative to be taken (default is 0).
+    grid : bool, optional
+        If ``True``, field components are computed on a regular grid. Arrays
+        ``theta`` and ``phi`` must have one dimension less than the output grid
+        since the grid will be created as their outer product.
+
+    Returns
+    -------
+    B_radius, B_theta, B_phi : ndarray, shape (...)
+        Radial, colatitude and azimuthal field components.
+
+    See Also
+    --------
+    synth_values
+
+    """
+
+    # handle optional argument: nmax
+    nmax_coeffs = int(np.sqrt(coeffs.shape[-1] + 1) - 1)  # degree for coeffs
+    if nmax is None:
+        nmax = nmax_coeffs
+    elif nmax > nmax_coeffs:
+        warnings.warn('Input nmax = {0} is incompatible with the number of '
+                      'model coefficients. Using nmax = {1} instead.'.format(
+                        nmax, nmax_coeffs))
+        nmax = nmax_coeffs
+
+    # handle optional argument: source
+    source = 'internal' if source is None else source
+
+    # compute SH coefficients from pp-form and take derivatives if needed
+    deriv = 0 if deriv is None else deriv
+
+    # set grid option to false
+    grid = False if grid is None else grid
+
+    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
+                              extrapolate=False)
+
+    PP = PP.derivative(nu=deriv)
+    gauss_coeffs = PP(time) * 365.25**deriv
+
+    B_radius, B_theta, B_phi = synth_values(
+        gauss_coeffs, radius, theta, phi, nmax=nmax, source=source, grid=grid)
+
+    return B_radius, B_theta, B_phi
+
+
+def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
+                 mmax=None, source=None, grid=None):
+    """
+    Computes radial, colatitude and azimuthal field components from the
+    magnetic potential field in terms of spherical harmonic coefficients.
+
+    Parameters
+    ----------
+
+    coeffs : ndarray, shape (..., M)
+        Coefficients of the spherical harmonic expansion. The last dimension is
+        equal to the number of coefficients.
+    radius : float or ndarray, shape (...)
+        Array containing the radius in kilometers.
+    theta : float or ndarray, shape (...)
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : float or ndarray, shape (...)
+        Array containing the longitude in degrees.
+    nmax : int, positive, optional
+        Maximum degree up to which expansion is to be used (default is given by
+        the last dimension of ``coeffs``, that is, ``M = nmax(nmax+2)``). This
+        value can also be smaller if only coefficients at low degree should
+        contribute.
+    nmin : int, positive, optional
+        Minimum degree of the expansion (defaults to 1). This value must
+        correspond to the minimum degree of the coefficients and cannot be
+        larger.
+    mmax : int, positive, optional
+        Maximum order of the spherical harmonic expansion (defaults to
+        ``nmax``). This value can also be smaller. For example, if only the
+        zonal part of the expansion should be used, set ``mmax = 0``.
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+    grid : bool, optional
+        If ``True``, field components are computed on a regular grid. Arrays
+        ``theta`` and ``phi`` must have one dimension less than the output grid
+        since the grid will be created as their outer product (defaults to
+        ``False``).
+
+    Returns
+    -------
+    B_radius, B_theta, B_phi : ndarray, shape (...)
+        Radial, colatitude and azimuthal field components.
+
+    Warnings
+    --------
+    The function can also evaluate the field components at the geographic
+    poles, i.e. where ``theta == 0.`` or ``theta == 180.``. However, users
+    should be careful when doing this because the vector basis for spherical
+    geocentric coordinates,
+    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
+    depends on longitude, which is not well defined at the poles. That is,
+    at the poles, any value for the longitude maps to the same location in
+    euclidean coordinates but gives a different vector basis in spherical
+    geocentric coordinates. Nonetheless, by choosing a specific value for the
+    longitude at the poles, users can define the vector basis, which then
+    establishes the meaning of the spherical geocentric components returned by
+    this function. The vector basis for the horizontal components is defined as
+
+    .. math::
+
+        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
+            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
+        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
+            \\cos\\phi\\mathbf{e}_y
+
+    Hence, at the geographic north pole as given by ``theta = 0.`` and
+    ``phi = 0.`` (user input), the returned component ``B_theta``
+    will be along the direction :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and
+    ``B_phi`` along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
+    if ``phi = 180.`` is chosen, ``B_theta``
+    will be along :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``B_phi``
+    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
+
+    Notes
+    -----
+    The function can work with different grid shapes, but the inputs have to
+    satisfy NumPy's `broadcasting rules \\
+    <https://docs.scipy.org/doc/numpy-1.15.0/user/basics.broadcasting.html>`_
+    (``grid=False``, default). This also applies to the dimension of the
+    coefficients ``coeffs`` excluding the last dimension.
+
+    The optional parameter ``grid`` is for convenience. If set to ``True``,
+    a singleton dimension is appended (prepended) to ``theta`` (``phi``)
+    for broadcasting to a regular grid. The other inputs ``radius`` and
+    ``coeffs`` must then be broadcastable as before but now with the resulting
+    regular grid.
+
+    Examples
+    --------
+    The most straight forward computation uses a fully specified grid. For
+    example, compute the magnetic field at :math:`N=50` grid points on the
+    surface.
+
+    .. code-block:: python
+
+      import chaosmagpy.model_utils as cpm
+      import numpy as np
+
+      N = 50
+      coeffs = np.ones((3,))  # degree 1 coefficients for all points
+      radius = 6371.2 * np.ones((N,))  # radius of 50 points in km
+      phi = np.linspace(-180., 180., num=N)  # azimuth of 50 points in deg.
+      theta = np.linspace(0., 180., num=N)  # colatitude of 50 points in deg.
+
+      B = cpm.synth_values(coeffs, radius, theta, phi)
+      print([B[num].shape for num in range(3)])  # output shape (N,)
+
+    Instead of `N` points, compute the field on a regular
+    :math:`N\\times N`-grid in azimuth and colatitude (slow).
+
+    .. code-block:: python
+
+      radius_grid = 6371.2 * np.ones((N, N))
+      phi_grid, theta_grid = np.meshgrid(phi, theta)  # grid of shape (N, N)
+
+      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    But this is slow since some computations on the grid are repeatedly done.
+    The preferred method is to use NumPy's broadcasting rules (fast).
+
+    .. code-block:: python
+
+      radius_grid = 6371.2  # float, () or (1,)-shaped array broadcasted to NxN
+      theta_grid = theta[:, None]  # append singleton: (N, 1)
+      phi_grid = phi[None, :]  # prepend singleton: (1, N)
+
+      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    For convenience, you can do the same by using ``grid=True`` option, which
+    appends a singleton dimension to ``theta`` and inserts a singleton
+    dimension at the second to last position in the shape of ``phi``.
+
+    .. code-block:: python
+
+      B = cpm.synth_values(coeffs, radius_grid, theta, phi, grid=True)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    Remember that ``grid=False`` (default) will result in
+    (N,)-shaped outputs as in the first example.
+
+    """
+
+    # ensure ndarray inputs
+    coeffs = np.asarray(coeffs, dtype=float)
+    radius = (np.asarray(radius, dtype=float)
+              / config_utils.basicConfig['params.r_surf'])
+    theta = np.asarray(theta, dtype=float)
+    phi = np.asarray(phi, dtype=float)
+
+    theta_min = np.amin(theta)
+    theta_max = np.amax(theta)
+
+    if (theta_min <= 0.0) or (theta_max >= 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
+            warnings.warn('Input coordinates include the poles.')
+            poles = True
+        else:
+            raise ValueError('Colatitude outside bounds [0, 180].')
+    else:
+        poles = False
+
+    nmin = 1 if nmin is None else int(nmin)
+    assert nmin > 0, 'The value of "nmin" must be greater than zero.'
+
+    dim = coeffs.shape[-1]
+
+    # handle nmax and mmax
+    if (nmax is None) and (mmax is None):
+        nmax = int(np.sqrt(dim + nmin**2) - 1)
+        mmax = nmax
+
+    elif mmax is None:  # but nmax given
+        mmax = nmax
+
+    elif nmax is None:  # but mmax given
+
+        if mmax >= (nmin-1):
+            nmax = int((dim - mmax*(mmax+2) + nmin**2 - 1) / (2*mmax+1) + mmax)
+
+        else:
+            nmax = int(dim / (2*mmax+1) + nmin - 1)
+
+    if nmax < nmin:
+        raise ValueError(f'Nothing to compute: nmax ({nmax}) < nmin ({nmin}).')
+
+    # handle optional argument: source
+    if source is None:
+        source = 'internal'
+
+    # handle grid option
+    grid = False if grid is None else grid
+
+    # manually broadcast input grid on surface
+    if grid:
+        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension
+        phi = np.expand_dims(phi, axis=-2)  # insert singleton before last
+
+    # get shape of broadcasted result
+    try:
+        b = np.broadcast(
+            radius, theta, phi, np.broadcast_to(0, coeffs.shape[:-1]))
+
+    except ValueError:
+        print('Cannot broadcast grid shapes (excl. last dimension of coeffs):')
+        print(f'radius: {radius.shape}')
+        print(f'theta:  {theta.shape}')
+        print(f'phi:    {phi.shape}')
+        print(f'coeffs: {coeffs.shape[:-1]}')
+        raise
+
+    grid_shape = b.shape
+
+    # initialize radial dependence given the source
+    if source == 'internal':
+        r_n = radius**(-(nmin+2))
+    elif source == 'external':
+        r_n = radius**(nmin-1)
+    else:
+        raise ValueError("Source must be either 'internal' or 'external'.")
+
+    # compute associated Legendre polynomials as (n, m, theta-points)-array
+    Pnm = legendre_poly(nmax, theta)
+
+    # save sinth for fast access
+    sinth = Pnm[1, 1]
+
+    # find the poles
+    if poles:
+        where_poles = (theta == 0.) | (theta == 180.)
+
+    # convert phi to radians
+    phi = np.radians(phi)
+
+    # allocate arrays in memory
+    B_radius = np.zeros(grid_shape)
+    B_theta = np.zeros(grid_shape)
+    B_phi = np.zeros(grid_shape)
+
+    num = 0
+    for n in range(nmin, nmax+1):
+
+        if source == 'internal':
+            B_radius += (n+1) * Pnm[n, 0] * r_n * coeffs[..., num]
+        else:
+            B_radius += -n * Pnm[n, 0] * r_n * coeffs[..., num]
+
+        B_theta += -Pnm[0, n+1] * r_n * coeffs[..., num]
+
+        num += 1
+        for m in range(1, min(n, mmax)+1):
+
+            cmp = np.cos(m*phi)
+            smp = np.sin(m*phi)
+
+            if source == 'internal':
+                B_radius += ((n+1) * Pnm[n, m] * r_n
+                             * (coeffs[..., num] * cmp
+                                + coeffs[..., num+1] * smp))
+            else:
+                B_radius += -(n * Pnm[n, m] * r_n
+                              * (coeffs[..., num] * cmp
+                                 + coeffs[..., num+1] * smp))
+
+            B_theta += (-Pnm[m, n+1] * r_n
+                        * (coeffs[..., num] * cmp
+                           + coeffs[..., num+1] * smp))
+
+            # need special treatment at the poles because Pnm/sinth = 0/0 for
+            # theta in {0., 180.},
+            # use L'Hopital's rule to take the limit:
+            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
+            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
+            # theta=180.); k = costh = P[1, 0] at poles for convenience
+            if poles:
+                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
+                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
+                div_Pnm[~where_poles] /= sinth[~where_poles]
+            else:
+                div_Pnm = Pnm[n, m] / sinth
+
+            B_phi += (m * div_Pnm * r_n
+                      * (coeffs[..., num] * smp
+                         - coeffs[..., num+1] * cmp))
+
+            num += 2
+
+        if source == 'internal':
+            r_n = r_n / radius  # equivalent to r_n = radius**(-(n+2))
+        else:
+            r_n = r_n * radius  # equivalent to r_n = radius**(n-1)
+
+    return B_radius, B_theta, B_phi
+
+
+def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
+                 source=None):
+    """
+    Computes matrices to connect the radial, colatitude and azimuthal field
+    components to the magnetic potential field in terms of spherical harmonic
+    coefficients (Schmidt quasi-normalized).
+
+    Parameters
+    ----------
+
+    radius : ndarray, shape (...)
+        Array containing the radius in kilometers.
+    theta : ndarray, shape (...)
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (...)
+        Array containing the longitude in degrees.
+    nmax : int, positive
+        Maximum degree of the sphercial harmonic expansion.
+    nmin : int, positive, optional
+        Minimum degree of the sphercial harmonic expansion (defaults to 1).
+    mmax : int, positive, optional
+        Maximum order of the spherical harmonic expansion (defaults to
+        ``nmax``). For ``mmax = 0``, for example, only the zonal terms are
+        returned.
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+
+    Returns
+    -------
+    A_radius, A_theta, A_phi : ndarray, shape (..., M)
+        Matrices for radial, colatitude and azimuthal field components. The
+        second dimension ``M`` varies depending on ``nmax``, ``nmin`` and
+        ``mmax``.
+
+    Warnings
+    --------
+    The function can also return the design matrix for the field components at
+    the geographic poles, i.e. where ``theta == 0.`` or ``theta == 180.``.
+    However, users should be careful when doing this because the vector basis
+    for spherical geocentric coordinates,
+    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
+    depends on longitude, which is not well defined at the poles. That is,
+    at the poles, any value for the longitude maps to the same location in
+    euclidean coordinates but gives a different vector basis in spherical
+    geocentric coordinates. Nonetheless, by choosing a specific value for the
+    longitude at the poles, users can define the vector basis, which then
+    establishes the meaning of the spherical geocentric components. The vector
+    basis for the horizontal components is defined as
+
+    .. math::
+
+        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
+            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
+        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
+            \\cos\\phi\\mathbf{e}_y
+
+    Hence, at the geographic north pole as given by ``theta = 0.`` and
+    ``phi = 0.`` (user input), the returned design matrix ``A_theta``
+    will be for components along the direction
+    :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and ``A_phi`` for components
+    along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
+    if ``phi = 180.`` is chosen, ``A_theta`` will be for components along
+    :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``A_phi``
+    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
+
+    Examples
+    --------
+    Create the design matrices given 4 locations on the Earth's surface:
+
+    >>> r = 6371.2
+    >>> theta = np.array([90., 100., 110., 120.])
+    >>> phi = 0.
+    >>> A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=1)
+    >>> A_radius
+    array([[ 1.22464680e-16, 2.00000000e+00, 0.00000000e+00],
+           [-3.47296355e-01, 1.96961551e+00, 0.00000000e+00],
+           [-6.84040287e-01, 1.87938524e+00, 0.00000000e+00],
+           [-1.00000000e+00, 1.73205081e+00, 0.00000000e+00]])
+
+    Say, only the axial dipole coefficient is non-zero, what is the magnetic
+    field in terms of spherical geocentric components?
+
+    >>> m = np.array([-30000, 0., 0.])  # model coefficients in nT
+    >>> Br = A_radius @ m; Br
+    array([-3.67394040e-12, 1.04188907e+04, 2.05212086e+04, 3.00000000e+04])
+    >>> Bt = A_theta @ m; Bt
+    array([-30000. , -29544.23259037, -28190.77862358, -25980.76211353])
+    >>> Bp = A_phi @ m; Bp
+    array([0., 0., 0., 0.])
+
+    A more complete example is given below:
+
+    .. code-block:: python
+
+        import numpy as np
+        from chaosmagpy.model_utils import design_gauss, synth_values
+
+        nmax = 5  # desired truncation degree, i.e. 35 model coefficients
+        coeffs = np.arange(35)  # example model coefficients
+
+        # example locations
+        N = 10
+        radius = 6371.2  # Earth's surface
+        phi = np.linspace(-180., 180., num=N)  # azimuth in degrees
+        theta = np.linspace(1., 179., num=N)  # colatitude in degrees
+
+        # compute design matrices to compute predictions of the
+        # field components from the model coefficients, each is of shape N x 35
+        A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=nmax)
+
+        # magnetic components computed from the model
+        Br_pred = A_radius @ coeffs
+        Bt_pred = A_theta @ coeffs
+        Bp_pred = A_phi @ coeffs
+
+        # compute the magnetic components directly from the coefficients
+        Br, Bt, Bp = synth_values(coeffs, radius, theta, phi)
+        np.linalg.norm(Br - Br_pred)  # approx 0.
+        np.linalg.norm(Bt - Bt_pred)  # approx 0.
+        np.linalg.norm(Bp - Bp_pred)  # approx 0.
+
+    """
+
+    # ensure ndarray inputs
+    radius = (np.asarray(radius, dtype=float)
+              / config_utils.basicConfig['params.r_surf'])
+    theta = np.asarray(theta, dtype=float)
+    phi = np.asarray(phi, dtype=float)
+
+    # get shape of broadcasted result
+    try:
+        b = np.broadcast(radius, theta, phi)
+
+    except ValueError:
+        print('Cannot broadcast grid shapes:')
+        print(f'radius: {radius.shape}')
+        print(f'theta:  {theta.shape}')
+        print(f'phi:    {phi.shape}')
+        raise
+
+    shape = b.shape
+
+    theta_min = np.amin(theta)
+    theta_max = np.amax(theta)
+
+    # check if poles are included
+    if (theta_min <= 0.0) or (theta_max >= 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
+            warnings.warn('Input coordinates include the poles.')
+            poles = True
+        else:
+            raise ValueError('Colatitude outside bounds [0, 180].')
+    else:
+        poles = False
+
+    # set internal source as default
+    if source is None:
+        source = 'internal'
+
+    assert nmax > 0, '"nmax" must be greater than zero.'
+
+    nmin = 1 if nmin is None else int(nmin)
+    assert nmin <= nmax, '"nmin" must be smaller than "nmax".'
+    assert nmin > 0, '"nmin" must be greater than zero.'
+
+    mmax = nmax if mmax is None else int(mmax)
+    assert mmax <= nmax, '"mmax" must be smaller than "nmax".'
+    assert mmax >= 0, '"mmax" must be greater than or equal to zero.'
+
+    # initialize radial dependence given the source
+    if source == 'internal':
+        r_n = radius**(-(nmin+2))
+    elif source == 'external':
+        r_n = radius**(nmin-1)
+    else:
+        raise ValueError("Source must be either 'internal' or 'external'.")
+
+    # compute associated Legendre polynomials as (n, m, theta-points)-array
+    Pnm = legendre_poly(nmax, theta)
+    sinth = Pnm[1, 1]
+
+    phi = np.radians(phi)
+
+    # find the poles
+    if poles:
+        where_poles = (theta == 0.) | (theta == 180.)
+
+    # compute the number of dimensions based on nmax, nmin, mmax
+    if mmax >= (nmin-1):
+        dim = int(mmax*(mmax+2) + (nmax-mmax)*(2*mmax+1) - nmin**2 + 1)
+    else:
+        dim = int((nmax-nmin+1)*(2*mmax+1))
+
+    # allocate A_radius, A_theta, A_phi in memeory
+    A_radius = np.zeros(shape + (dim,))
+    A_theta = np.zeros(shape + (dim,))
+    A_phi = np.zeros(shape + (dim,))
+
+    num = 0
+    for n in range(nmin, nmax+1):
+
+        if source == 'internal':
+            A_radius[..., num] = (n+1) * Pnm[n, 0] * r_n
+        else:
+            A_radius[..., num] = -n * Pnm[n, 0] * r_n
+
+        A_theta[..., num] = -Pnm[0, n+1] * r_n
+
+        num += 1
+        for m in range(1, min(n, mmax)+1):
+
+            cmp = np.cos(m*phi)
+            smp = np.sin(m*phi)
+
+            if source == 'internal':
+                A_radius[..., num] = (n+1) * Pnm[n, m] * r_n * cmp
+                A_radius[..., num+1] = (n+1) * Pnm[n, m] * r_n * smp
+            else:
+                A_radius[..., num] = -n * Pnm[n, m] * r_n * cmp
+                A_radius[..., num+1] = -n * Pnm[n, m] * r_n * smp
+
+            A_theta[..., num] = -Pnm[m, n+1] * r_n * cmp
+            A_theta[..., num+1] = -Pnm[m, n+1] * r_n * smp
+
+            # need special treatment at the poles because Pnm/sinth = 0/0 for
+            # theta in {0., 180.},
+            # use L'Hopital's rule to take the limit:
+            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
+            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
+            # theta=180.); k = costh = P[1, 0] at poles for convenience
+            if poles:
+                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
+                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
+                div_Pnm[~where_poles] /= sinth[~where_poles]
+            else:
+                div_Pnm = Pnm[n, m] / sinth
+
+            A_phi[..., num] = m * div_Pnm * r_n * smp
+            A_phi[..., num+1] = -m * div_Pnm * r_n * cmp
+
+            num += 2
+
+        # update radial dependence given the source
+        if source == 'internal':
+            r_n = r_n / radius
+        else:
+            r_n = r_n * radius
+
+    return A_radius, A_theta, A_phi
+
+
+def legendre_poly(nmax, theta):
+    """
+    Returns associated Legendre polynomials :math:`P_n^m(\\cos\\theta)`
+    (Schmidt quasi-normalized) and the derivative
+    :math:`dP_n^m(\\cos\\theta)/d\\theta` evaluated at :math:`\\theta`.
+
+    Parameters
+    ----------
+    nmax : int, positive
+        Maximum degree of the spherical expansion.
+    theta : ndarray, shape (...)
+        Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`
+        of arbitrary shape.
+
+    Returns
+    -------
+    Pnm : ndarray, shape (n, m, ...)
+          Evaluated values and derivatives, grid shape is appended as trailing
+          dimensions. :math:`P_n^m(\\cos\\theta)` := ``Pnm[n, m, ...]`` and
+          :math:`dP_n^m(\\cos\\theta)/d\\theta` := ``Pnm[m, n+1, ...]``
+
+    References
+    ----------
+    Based on Equations 26-29 and Table 2 in:
+
+    Langel, R. A., "Geomagnetism - The main field", Academic Press, 1987,
+    chapter 4
+
+    """
+
+    costh = np.cos(np.radians(theta))
+    sinth = np.sqrt(1-costh**2)
+
+    Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
+    Pnm[0, 0] = 1.  # is copied into trailing dimensions
+    Pnm[1, 1] = sinth  # write theta into trailing dimenions via broadcasting
+
+    rootn = np.sqrt(np.arange(2 * nmax**2 + 1))
+
+    # Recursion relations after Langel "The Main Field" (1987),
+    # eq. (27) and Table 2 (p. 256)
+    for m in range(nmax):
+        Pnm_tmp = rootn[m+m+1] * Pnm[m, m]
+        Pnm[m+1, m] = costh * Pnm_tmp
+
+        if m > 0:
+            Pnm[m+1, m+1] = sinth*Pnm_tmp / rootn[m+m+2]
+
+        for n in range(m+2, nmax+1):
+            d = n * n - m * m
+            e = n + n - 1
+            Pnm[n, m] = ((e * costh * Pnm[n-1, m] - rootn[d-e] * Pnm[n-2, m])
+                         / rootn[d])
+
+    # dP(n,m) = Pnm(m,n+1) is the derivative of P(n,m) vrt. theta
+    Pnm[0, 2] = -Pnm[1, 1]
+    Pnm[1, 2] = Pnm[1, 0]
+    for n in range(2, nmax+1):
+        Pnm[0, n+1] = -np.sqrt((n*n + n) / 2) * Pnm[n, 1]
+        Pnm[1, n+1] = ((np.sqrt(2 * (n*n + n)) * Pnm[n, 0]
+                       - np.sqrt((n*n + n - 2)) * Pnm[n, 2]) / 2)
+
+        for m in range(2, n):
+            Pnm[m, n+1] = (0.5*(np.sqrt((n + m) * (n - m + 1)) * Pnm[n, m-1]
+                           - np.sqrt((n + m + 1) * (n - m)) * Pnm[n, m+1]))
+
+        Pnm[n, n+1] = np.sqrt(2 * n) * Pnm[n, n-1] / 2
+
+    return Pnm
+
+
+def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
+    """
+    Compute the spatial power spectrum.
+
+    Parameters
+    ----------
+    coeffs : ndarray, shape (..., N*(N+2))
+        Spherical harmonic coefficients for degree `N`.
+    radius : float, optional
+        Radius in kilometers (defaults to mean Earth's surface radius).
+        It has no effect for ``source='toroidal'``.
+    nmax : int, optional
+        Maximum spherical degree (defaults to `N`).
+    source : {'internal', 'external', 'toroidal'}
+        Source of the field model (defaults to internal).
+    axis : int, optional
+        Axis of ``coeffs`` along which to compute the spatial power spectrum
+        (defaults to -1, last dimension of ``coeffs``).
+
+    Returns
+    -------
+    W_n : ndarray, shape (..., ``nmax``)
+        Power spectrum for degrees up to degree ``nmax``
+
+    Notes
+    -----
+    The spatial power spectrum for a potential field is defined as
+
+    .. math::
+
+        W_n(r) &= \\langle|\\mathbf{B}|^2\\rangle
+             = \\frac{1}{4\\pi}\\iint_\\Omega |\\mathbf{B}|^2 \\mathrm{d}
+               \\Omega \\\\
+             &= W_n^\\mathrm{i}(r) + W_n^\\mathrm{e}(r) + W_n^\\mathrm{T}
+
+    where the internal :math:`W_n^\\mathrm{i}`, external
+    :math:`W_n^\\mathrm{e}` and the non-potential toroidal
+    :math:`W_n^\\mathrm{T}` spatial power spectra are
+
+    .. math::
+
+        W_n^\\mathrm{i}(r) &= (n+1)\\left(\\frac{a}{r}\\right)^{2n+4}
+                              \\sum_{m=0}^n [(g_n^m)^2 + (h_n^m)^2] \\\\
+        W_n^\\mathrm{e}(r) &= n\\left(\\frac{r}{a}\\right)^{2n-2}\\sum_{m=0}^n
+                              [(q_n^m)^2 + (s_n^m)^2] \\\\
+        W_n^\\mathrm{T}    &= \\frac{n(n+1)}{2n+1}\\sum_{m=0}^n
+                              [(T_n^{m,c})^2 + (T_n^{m,s})^2]
+
+    References
+    ----------
+    Sabaka, T. J.; Hulot, G. & Olsen, N.,
+    "Mathematical properties relevant to geomagnetic field modeling",
+    Handbook of geomathematics, Springer, 2010, 503-538
+
+    """
+
+    axis = -1 if axis is None else int(axis)
+    if radius is None:
+        r = 1
+    else:
+        r = config_utils.basicConfig['params.r_surf'] / radius
+
+    N = int(np.sqrt(coeffs.shape[axis] + 1) - 1)  # maximum degree
+
+    if nmax is None:
+        nmax = N
+    elif nmax > N:
+        print(f'Incompatible maximum degree nmax = {nmax}, '
+              f'setting nmax to {N}.')
+        nmax = N
+
+    source = 'internal' if source is None else source
+
+    if source == 'internal':
+        def factor(n, r):
+            return (n+1) * r**(2*n+4)
+    elif source == 'external':
+        def factor(n, r):
+            return n * r**(-(2*n-2))
+    elif source == 'toroidal':
+        def factor(n, _):
+            return n*(n+1) / (2*n+1)
+    else:
+        raise ValueError(
+            'Unknown source. Use `internal`, `external` or `toroidal`.')
+
+    shape = list(coeffs.shape)
+    shape[axis] = nmax  # replace dim of axis with nmax
+    W_n = np.empty(shape)
+
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+
+        slc1 = coeffs.ndim*[slice(None), ]  # index for summation
+        slc1[axis] = slice(min, max)
+
+        slc2 = coeffs.ndim*[slice(None), ]  # index for insertion into output
+        slc2[axis] = n-1
+
+        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,
+                                               axis=axis)
+
+    return W_n
+
+
+def degree_correlation(coeffs_1, coeffs_2):
+    """
+    Correlation per spherical harmonic degree between two models 1 and 2.
+
+    Parameters
+    ----------
+    coeffs_1, coeffs_2 : ndarray, shape (N,)
+        Two sets of coefficients of equal length `N`.
+
+    Returns
+    -------
+    C_n : ndarray, shape (nmax,)
+        Degree correlation of the two models. There are `N = nmax(nmax+2)`
+        coefficients.
+
+    """
+
+    if coeffs_1.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_1.ndim} != 1)')
+
+    if coeffs_2.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_2.ndim} != 1)')
+
+    if coeffs_1.size != coeffs_2.size:
+        raise ValueError(
+            'Number of coefficients must be the same '
+            '({0} != {1}).'.format(coeffs_1.size, coeffs_2.size))
+
+    nmax = int(np.sqrt(coeffs_1.size + 1) - 1)
+
+    C_n = np.zeros((nmax,))
+    R_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_1
+    S_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_2
+
+    coeffs_12 = coeffs_1*coeffs_2
+
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+        R_n[n-1] = np.sum(coeffs_1[min:max]**2)
+        S_n[n-1] = np.sum(coeffs_2[min:max]**2)
+        C_n[n-1] = (np.sum(coeffs_12[min:max]) / np.sqrt(R_n[n-1]*S_n[n-1]))
+
+    return C_n
+
+
+def sensitivity(coeffs, coeffs_true):
+    """
+    Sensitivity (degree normalized error) of the input coefficients with
+    respect to the target/true coefficients.
+
+    Parameters
+    ----------
+    coeffs: ndarray, shape (N,)
+        Input spherical harmonic coefficients.
+    coeffs_true: ndarray, shape (N,)
+        Target/true spherical harmonic coefficients.
+
+    Returns
+    -------
+    S: ndarray, shape (N,)
+        Sensitivity of ``coeffs`` with respect to ``coeffs_true``.
+
+    Examples
+    --------
+    >>> import chaosmagpy as cp
+    >>> import numpy as np
+    >>> coeffs = np.array([1., 2., 5.])  # estimated degree 1 coefficients
+    >>> coeffs_true = np.array([1., 2., 3.])  # target degree 1 coefficients
+    >>> cp.model_utils.sensitivity(coeffs, coeffs_true)
+    array([0., 0., 0.63245553])
+
+    """
+    if coeffs.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs.ndim} != 1)')
+
+    if coeffs_true.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_true.ndim} != 1)')
+
+    if coeffs.size != coeffs_true.size:
+        raise ValueError(
+            'Number of coefficients must be the same '
+            '({0} != {1}).'.format(coeffs.size, coeffs_true.size))
+
+    nmax = int(np.sqrt(coeffs.size + 1) - 1)
+
+    S = coeffs - coeffs_true
+
+    # apply degree-dependent scaling
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+
+        S[min:max] *= 1. / np.sqrt(np.sum(coeffs_true[min:max]**2) / (2*n + 1))
+
+    return S
-- 
2.43.0


From c4ac398d8efe46dd270d56db874ce81577965bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 04/43] fix: avoid cancellation in sin(theta) of legendre_poly
 near the poles

sqrt(1-cos^2) is zero for colatitudes below about 6e-7 degrees, which gave
NaN in the azimuthal field component, and inaccurate close to the poles.
---
 chaosmagpy/model_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 9fa8d1e..2f8dd4e 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -925,7 +925,9 @@ def legendre_poly(nmax, theta):
     """
 
     costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
+    # sine of the angle from the nearest pole, sqrt(1-cos^2) is inaccurate there
+    theta = np.asarray(theta, dtype=float)
+    sinth = np.abs(np.sin(np.radians(np.minimum(theta, 180.0 - theta))))
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From 46098704b04b0f132e8d5031922270d2df1b0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 05/43] fix: is_leap_year accepts every integer dtype

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..0dfafee 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -522,7 +522,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From d5013a1eeacb29b9153d49a35b24aa6dd5411d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 06/43] fix: sign error in the lower time bound of sun_position

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..3ddea2a 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -758,7 +758,7 @@ def sun_position(time):
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
-        and np.all((year - time // 365.25) > 1901), \
+        and np.all((year + time // 365.25) >= 1901), \
         ("Time must be between 1901 and 2099.")
 
     frac_day = np.remainder(time, 1)  # decimal fraction of a day
-- 
2.43.0


From 282ab3ba3620cad4381e4773e554e5a7cb798ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 07/43] fix: use the reshaped 1-D frequency vector in
 synth_rotate_gauss

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 3ddea2a..8cfb2a1 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From 83ffb21a269d0562a21e7541bfb370db3616a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 08/43] fix: keep local_time below 24 hours for tiny negative
 arguments

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 8cfb2a1..4f6b65d 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1634,7 +1634,8 @@ def local_time(time, phi):
 
     """
 
-    return np.remainder(time + phi/360, 1)*24
+    frac_day = np.remainder(time + phi/360, 1)
+    return np.remainder(frac_day, 1)*24  # frac_day may round to 1.0
 
 
 def q_response_1D(periods, sigma, radius, n, kind=None):
-- 
2.43.0


From e8d6e7535c1adb3499290b48290838a77e71927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 09/43] fix: save_shcfile accepts a scalar time as documented

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 0dfafee..dbbc19e 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -363,7 +363,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
         f.write(comment)
 
         f.write('  ')  # to represent two missing values
-        for t in time:
+        for t in np.ravel(time):
             f.write(' {:16.8f}'.format(mjd_to_dyear(t, leap_year=leap_year)))
         f.write('\n')
 
-- 
2.43.0


From 7e9147235830602ba5fedef452ba1f30f1744a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 10/43] fix: NaN zenith angle at the subsolar point due to
 rounding

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 4f6b65d..0fe9bbc 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -824,7 +824,8 @@ def zenith_angle(time, theta, phi):
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
 
-    return np.degrees(np.arccos(cos_zeta))
+    # rounding may exceed the interval [-1, 1]
+    return np.degrees(np.arccos(np.clip(cos_zeta, -1.0, 1.0)))
 
 
 def spherical_to_cartesian(radius, theta, phi):
-- 
2.43.0


From ba0c1e12b8db48fc97a0d4472f51147623d97727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 11/43] fix: real-valued apparent resistivity for
 kind='quadratic'

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0fe9bbc..a79d4e1 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1886,7 +1886,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         # Compute the C-response (in km)
         C = 1/(omega*mu*Y[:, 0])/1e3
 
-        rho_a = mu*omega*np.abs(C*1000)**2  # rho_a in (Ohm*m)
+        rho_a = mu*np.abs(omega)*np.abs(C*1000)**2  # rho_a in (Ohm*m)
         phi = 90 + 57.3*np.angle(C)  # phase phi in degrees
 
         # Q-response
-- 
2.43.0


From bf9c439eec1c8fef05122d081a0f9b5c3685a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 12/43] fix: restore the configuration when the context body
 raises

---
 chaosmagpy/config_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..cb285d6 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,10 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 94a2583c9fee04a088812b48ad916f275a8dc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 13/43] fix: do not share the default arrays with the active
 configuration

---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index cb285d6..c6e8027 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update(
+            {key: copy.copy(val) for key, (val, _) in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -298,7 +300,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig(
+    {key: copy.copy(val) for key, (val, _) in DEFAULTS.items()})
 
 
 if __name__ == '__main__':
-- 
2.43.0


From dc791f69e0c3d323d1d1e4667bde5f7ee9f6ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 14/43] fix: plot_power_spectrum must not modify its input
 array

---
 chaosmagpy/plot_utils.py | 745 ++++++++++++++++++++-------------------
 1 file changed, 373 insertions(+), 372 deletions(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..a70e1f2 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -1,372 +1,373 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.plot_utils` provides functions for plotting model outputs.
-
-.. autosummary::
-    :toctree: functions
-
-    plot_timeseries
-    plot_maps
-    plot_power_spectrum
-    nio_colormap
-
-"""
-
-import numpy as np
-import warnings
-import shapefile
-from . import data_utils
-from . import config_utils
-
-try:
-    import matplotlib.pyplot as plt
-    import matplotlib.ticker as ticker
-    import matplotlib.dates as mdates
-    from matplotlib.colors import LinearSegmentedColormap
-except ImportError:
-    warnings.warn('Could not import Matplotlib. Plotting methods and '
-                  'functions will raise a NameError.')
-
-
-def plot_timeseries(time, *args, **kwargs):
-    """
-    Creates line plots for the timeseries of the input arguments.
-
-    Parameters
-    ----------
-    time : ndarray, shape (N,)
-        Array containing time in modified Julian dates.
-    *args : ndarray, shape (N, k)
-        Array containing `k` columns of values to plot against time. Several
-        arrays can be provided as separated arguments.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    ylabel : string
-        Label of the vertical axis (defaults to an empty string).
-    layout : 2-tuple of int
-        Layout of the subplots (defaults to vertically stacked subplots).
-    **kwargs : keywords
-        Other options to pass to matplotlib plotting method.
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    n = len(args)  # number of subplots
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.8*n*config_utils.basicConfig['plots.figure_width']),
-        'titles': n*[''],
-        'ylabel': '',
-        'layout': (n, 1)
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    # remove keywords that are not intended for plot
-    figsize = kwargs.pop('figsize')
-    layout = kwargs.pop('layout')
-    titles = kwargs.pop('titles')
-    ylabel = kwargs.pop('ylabel')
-
-    if layout[0]*layout[1] != n:
-        raise ValueError('Plot layout is not compatible with the number of '
-                         'produced subplots.')
-
-    date_time = data_utils.timestamp(np.ravel(time))
-
-    fig, axes = plt.subplots(layout[0], layout[1], sharex='all',
-                             figsize=figsize, squeeze=False)
-
-    for ax, component, title in zip(axes.flat, args, titles):
-        ax.plot(date_time, component, **kwargs)
-        ax.set_title(title)
-        ax.grid(True)
-        ax.set(ylabel=ylabel, xlabel='time')
-        fig.autofmt_xdate()
-        ax.fmt_xdata = mdates.DateFormatter('%Y-%m-%d-%h')
-
-    fig.tight_layout(rect=(0, 0.02, 1, 1))
-
-
-def plot_maps(theta_grid, phi_grid, *args, **kwargs):
-    """
-    Plots global maps of the input arguments.
-
-    Parameters
-    ----------
-    theta_grid : ndarray
-        Array containing the colatitude in degrees.
-    phi_grid : ndarray
-        Array containing the longitude in degrees.
-    *args : ndarray
-        Array of values to plot on the global map. Several
-        arrays can be provided as separated arguments.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    label : string
-        Colorbar label (defaults to an empty string).
-    layout : 2-tuple of int
-        Layout of the subplots (defaults to vertically stacked subplots).
-    cmap : str
-        Colormap code (defaults to ``'PuOr_r'`` colormap).
-    limiter : function, lambda expression
-        Function to compute symmetric colorbar limits (defaults to maximum of
-        the absolute values in the input, or use ``'vmin'``, ``'vmax'``
-        keywords instead).
-    projection : str
-        Projection of the target frame (defaults to `'mollweide'`).
-    **kwargs : keywords
-        Other options to pass to matplotlib :func:`pcolormesh` method.
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    n = len(args)  # number of plots
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.4*n*config_utils.basicConfig['plots.figure_width']),
-        'titles': n*[''],
-        'label': '',
-        'layout': (n, 1),
-        'cmap': 'PuOr_r',
-        'limiter': lambda x: np.amax(np.abs(x)),  # maximum value
-        'projection': 'mollweide',
-        'shading': 'auto'
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    # remove keywords that are not intended for pcolormesh
-    figsize = kwargs.pop('figsize')
-    titles = kwargs.pop('titles')
-    label = kwargs.pop('label')
-    limiter = kwargs.pop('limiter')
-    projection = kwargs.pop('projection')
-    layout = kwargs.pop('layout')
-
-    if layout[0]*layout[1] != n:
-        raise ValueError('Plot layout is not compatible with the number of '
-                         'produced subplots.')
-
-    # load shapefile with the coastline
-    shp = config_utils.basicConfig['file.shp_coastline']
-
-    # create axis handle
-    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize,
-                             subplot_kw=dict(projection=projection),
-                             squeeze=False)
-
-    # make subplots
-    for ax, component, title in zip(axes.flat, args, titles):
-
-        # evaluate colorbar limits depending on vmax/vmin in kwargs
-        kwargs.setdefault('vmax', limiter(component))
-        kwargs.setdefault('vmin', -limiter(component))
-
-        with shapefile.Reader(shp) as sf:
-
-            for rec in sf.shapeRecords():
-                lon = np.radians([point[0] for point in rec.shape.points[:]])
-                lat = np.radians([point[1] for point in rec.shape.points[:]])
-
-                ax.plot(lon, lat, color='k', linewidth=0.8)
-
-        # produce colormesh and evaluate keywords (defaults and input)
-        pc = ax.pcolormesh(np.radians(phi_grid), np.radians(90. - theta_grid),
-                           component, **kwargs)
-
-        plt.colorbar(pc, ax=ax, extend='both', label=label)
-
-        ax.xaxis.set_ticks(np.radians(np.linspace(-180., 180., num=13)))
-        ax.yaxis.set_ticks(np.radians(np.linspace(-60., 60., num=5)))
-        ax.xaxis.set_major_formatter('')
-        ax.grid(True)
-
-        ax.set_title(title)
-
-    fig.tight_layout()
-
-
-def plot_power_spectrum(spectrum, **kwargs):
-    """
-    Plot the spherical harmonic spectrum.
-
-    Parameters
-    ----------
-    spectrum : ndarray, shape (N,)
-        Spherical harmonics spectrum of degree `N`.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    ylabel : string
-        Label of the vertical axis (defaults to an empty string).
-    **kwargs
-        Keywords passed to :func:`matplotlib.pyplot.semilogy`
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.8*config_utils.basicConfig['plots.figure_width']),
-        'titles': '',
-        'ylabel': ''
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    figsize = kwargs.pop('figsize')
-    titles = kwargs.pop('titles')
-    ylabel = kwargs.pop('ylabel')
-
-    degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
-
-    # create axis handle
-    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-
-    ax.semilogy(degrees, spectrum, **kwargs)
-    ax.set_title(titles)
-    ax.grid(True, which='minor', linestyle=':')
-    ax.grid(True, which='major', linestyle='-', axis='both')
-    ax.set(ylabel=ylabel, xlabel='degree')
-
-    ax.xaxis.set_major_locator(ticker.MaxNLocator(integer=True))
-
-    fig.tight_layout()
-
-
-def fmt(x, pos):
-    # format=ticker.FuncFormatter(fmt)
-    a, b = '{:.1e}'.format(x).split('e')
-    b = int(b)
-
-    if a == '0.0':
-        return r'${}$'.format(a)
-    else:
-        return r'${}$e${}$'.format(a, b)
-
-
-def defaultkeys(defaults, keywords):
-    """
-    Return dictionary of default keywords. Overwrite any keywords in
-    ``defaults`` using keywords from ``keywords``, except if they are None.
-
-    Parameters
-    ----------
-    defaults, keywords : dict
-        Dictionary of default and replacing keywords.
-
-    Returns
-    -------
-    keywords : dict
-
-    """
-
-    # overwrite value with the one in kwargs, if not then use the default
-    for key, value in defaults.items():
-        if keywords.setdefault(key, value) is None:
-            keywords[key] = value
-
-    return keywords
-
-
-def nio_colormap():
-    """
-    Define custom-built colormap 'nio' and register. Can be called in plots as
-    ``cmap='nio'`` after importing this module.
-
-    .. plot::
-        :include-source: false
-
-        import numpy as np
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-
-        gradient = np.linspace(0, 1, 256)
-        gradient = np.vstack((gradient, gradient))
-
-        figh = 0.35 + 0.15 + 0.22
-        fig, ax = plt.subplots(1, 1, figsize=(6.4, figh))
-        fig.subplots_adjust(top=0.792, bottom=0.208, left=0.023, right=0.977)
-        ax.imshow(gradient, aspect='auto', cmap='nio')
-        # ax.set_axis_off()
-        ax.get_xaxis().set_visible(False)
-        ax.get_yaxis().set_visible(False)
-        plt.show()
-
-    """
-
-    cdict = {'red':   ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 0.0000, 0.0000),
-                       (0.3333, 0.0000, 0.0000),
-                       (0.5020, 1.0000, 1.0000),
-                       (0.6667, 1.0000, 1.0000),
-                       (0.8333, 1.0000, 1.0000),
-                       (1.0000, 1.0000, 1.0000)),
-
-             'green': ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 0.0000, 0.0000),
-                       (0.3333, 1.0000, 1.0000),
-                       (0.5020, 1.0000, 1.0000),
-                       (0.6667, 1.0000, 1.0000),
-                       (0.8333, 0.0000, 0.0000),
-                       (1.0000, 0.0000, 0.0000)),
-
-             'blue':  ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 1.0000, 1.0000),
-                       (0.3333, 1.0000, 1.0000),
-                       (0.5020, 1.0000, 1.0000),  # >0.5 for white (intpl bug?)
-                       (0.6667, 0.0000, 0.0000),
-                       (0.8333, 0.0000, 0.0000),
-                       (1.0000, 1.0000, 1.0000))}
-
-    return LinearSegmentedColormap('nio', cdict)
-
-
-# register cmap name for convenient use
-try:
-    plt.colormaps.register(cmap=nio_colormap())
-except NameError:
-    pass
-
-
-if __name__ == '__main__':
-    pass
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.plot_utils` provides functions for plotting model outputs.
+
+.. autosummary::
+    :toctree: functions
+
+    plot_timeseries
+    plot_maps
+    plot_power_spectrum
+    nio_colormap
+
+"""
+
+import numpy as np
+import warnings
+import shapefile
+from . import data_utils
+from . import config_utils
+
+try:
+    import matplotlib.pyplot as plt
+    import matplotlib.ticker as ticker
+    import matplotlib.dates as mdates
+    from matplotlib.colors import LinearSegmentedColormap
+except ImportError:
+    warnings.warn('Could not import Matplotlib. Plotting methods and '
+                  'functions will raise a NameError.')
+
+
+def plot_timeseries(time, *args, **kwargs):
+    """
+    Creates line plots for the timeseries of the input arguments.
+
+    Parameters
+    ----------
+    time : ndarray, shape (N,)
+        Array containing time in modified Julian dates.
+    *args : ndarray, shape (N, k)
+        Array containing `k` columns of values to plot against time. Several
+        arrays can be provided as separated arguments.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    ylabel : string
+        Label of the vertical axis (defaults to an empty string).
+    layout : 2-tuple of int
+        Layout of the subplots (defaults to vertically stacked subplots).
+    **kwargs : keywords
+        Other options to pass to matplotlib plotting method.
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    n = len(args)  # number of subplots
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.8*n*config_utils.basicConfig['plots.figure_width']),
+        'titles': n*[''],
+        'ylabel': '',
+        'layout': (n, 1)
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    # remove keywords that are not intended for plot
+    figsize = kwargs.pop('figsize')
+    layout = kwargs.pop('layout')
+    titles = kwargs.pop('titles')
+    ylabel = kwargs.pop('ylabel')
+
+    if layout[0]*layout[1] != n:
+        raise ValueError('Plot layout is not compatible with the number of '
+                         'produced subplots.')
+
+    date_time = data_utils.timestamp(np.ravel(time))
+
+    fig, axes = plt.subplots(layout[0], layout[1], sharex='all',
+                             figsize=figsize, squeeze=False)
+
+    for ax, component, title in zip(axes.flat, args, titles):
+        ax.plot(date_time, component, **kwargs)
+        ax.set_title(title)
+        ax.grid(True)
+        ax.set(ylabel=ylabel, xlabel='time')
+        fig.autofmt_xdate()
+        ax.fmt_xdata = mdates.DateFormatter('%Y-%m-%d-%h')
+
+    fig.tight_layout(rect=(0, 0.02, 1, 1))
+
+
+def plot_maps(theta_grid, phi_grid, *args, **kwargs):
+    """
+    Plots global maps of the input arguments.
+
+    Parameters
+    ----------
+    theta_grid : ndarray
+        Array containing the colatitude in degrees.
+    phi_grid : ndarray
+        Array containing the longitude in degrees.
+    *args : ndarray
+        Array of values to plot on the global map. Several
+        arrays can be provided as separated arguments.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    label : string
+        Colorbar label (defaults to an empty string).
+    layout : 2-tuple of int
+        Layout of the subplots (defaults to vertically stacked subplots).
+    cmap : str
+        Colormap code (defaults to ``'PuOr_r'`` colormap).
+    limiter : function, lambda expression
+        Function to compute symmetric colorbar limits (defaults to maximum of
+        the absolute values in the input, or use ``'vmin'``, ``'vmax'``
+        keywords instead).
+    projection : str
+        Projection of the target frame (defaults to `'mollweide'`).
+    **kwargs : keywords
+        Other options to pass to matplotlib :func:`pcolormesh` method.
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    n = len(args)  # number of plots
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.4*n*config_utils.basicConfig['plots.figure_width']),
+        'titles': n*[''],
+        'label': '',
+        'layout': (n, 1),
+        'cmap': 'PuOr_r',
+        'limiter': lambda x: np.amax(np.abs(x)),  # maximum value
+        'projection': 'mollweide',
+        'shading': 'auto'
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    # remove keywords that are not intended for pcolormesh
+    figsize = kwargs.pop('figsize')
+    titles = kwargs.pop('titles')
+    label = kwargs.pop('label')
+    limiter = kwargs.pop('limiter')
+    projection = kwargs.pop('projection')
+    layout = kwargs.pop('layout')
+
+    if layout[0]*layout[1] != n:
+        raise ValueError('Plot layout is not compatible with the number of '
+                         'produced subplots.')
+
+    # load shapefile with the coastline
+    shp = config_utils.basicConfig['file.shp_coastline']
+
+    # create axis handle
+    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize,
+                             subplot_kw=dict(projection=projection),
+                             squeeze=False)
+
+    # make subplots
+    for ax, component, title in zip(axes.flat, args, titles):
+
+        # evaluate colorbar limits depending on vmax/vmin in kwargs
+        kwargs.setdefault('vmax', limiter(component))
+        kwargs.setdefault('vmin', -limiter(component))
+
+        with shapefile.Reader(shp) as sf:
+
+            for rec in sf.shapeRecords():
+                lon = np.radians([point[0] for point in rec.shape.points[:]])
+                lat = np.radians([point[1] for point in rec.shape.points[:]])
+
+                ax.plot(lon, lat, color='k', linewidth=0.8)
+
+        # produce colormesh and evaluate keywords (defaults and input)
+        pc = ax.pcolormesh(np.radians(phi_grid), np.radians(90. - theta_grid),
+                           component, **kwargs)
+
+        plt.colorbar(pc, ax=ax, extend='both', label=label)
+
+        ax.xaxis.set_ticks(np.radians(np.linspace(-180., 180., num=13)))
+        ax.yaxis.set_ticks(np.radians(np.linspace(-60., 60., num=5)))
+        ax.xaxis.set_major_formatter('')
+        ax.grid(True)
+
+        ax.set_title(title)
+
+    fig.tight_layout()
+
+
+def plot_power_spectrum(spectrum, **kwargs):
+    """
+    Plot the spherical harmonic spectrum.
+
+    Parameters
+    ----------
+    spectrum : ndarray, shape (N,)
+        Spherical harmonics spectrum of degree `N`.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    ylabel : string
+        Label of the vertical axis (defaults to an empty string).
+    **kwargs
+        Keywords passed to :func:`matplotlib.pyplot.semilogy`
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.8*config_utils.basicConfig['plots.figure_width']),
+        'titles': '',
+        'ylabel': ''
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    figsize = kwargs.pop('figsize')
+    titles = kwargs.pop('titles')
+    ylabel = kwargs.pop('ylabel')
+
+    degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
+    # remove non-positive values for log, without changing the input
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
+
+    # create axis handle
+    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
+
+    ax.semilogy(degrees, spectrum, **kwargs)
+    ax.set_title(titles)
+    ax.grid(True, which='minor', linestyle=':')
+    ax.grid(True, which='major', linestyle='-', axis='both')
+    ax.set(ylabel=ylabel, xlabel='degree')
+
+    ax.xaxis.set_major_locator(ticker.MaxNLocator(integer=True))
+
+    fig.tight_layout()
+
+
+def fmt(x, pos):
+    # format=ticker.FuncFormatter(fmt)
+    a, b = '{:.1e}'.format(x).split('e')
+    b = int(b)
+
+    if a == '0.0':
+        return r'${}$'.format(a)
+    else:
+        return r'${}$e${}$'.format(a, b)
+
+
+def defaultkeys(defaults, keywords):
+    """
+    Return dictionary of default keywords. Overwrite any keywords in
+    ``defaults`` using keywords from ``keywords``, except if they are None.
+
+    Parameters
+    ----------
+    defaults, keywords : dict
+        Dictionary of default and replacing keywords.
+
+    Returns
+    -------
+    keywords : dict
+
+    """
+
+    # overwrite value with the one in kwargs, if not then use the default
+    for key, value in defaults.items():
+        if keywords.setdefault(key, value) is None:
+            keywords[key] = value
+
+    return keywords
+
+
+def nio_colormap():
+    """
+    Define custom-built colormap 'nio' and register. Can be called in plots as
+    ``cmap='nio'`` after importing this module.
+
+    .. plot::
+        :include-source: false
+
+        import numpy as np
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+
+        gradient = np.linspace(0, 1, 256)
+        gradient = np.vstack((gradient, gradient))
+
+        figh = 0.35 + 0.15 + 0.22
+        fig, ax = plt.subplots(1, 1, figsize=(6.4, figh))
+        fig.subplots_adjust(top=0.792, bottom=0.208, left=0.023, right=0.977)
+        ax.imshow(gradient, aspect='auto', cmap='nio')
+        # ax.set_axis_off()
+        ax.get_xaxis().set_visible(False)
+        ax.get_yaxis().set_visible(False)
+        plt.show()
+
+    """
+
+    cdict = {'red':   ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 0.0000, 0.0000),
+                       (0.3333, 0.0000, 0.0000),
+                       (0.5020, 1.0000, 1.0000),
+                       (0.6667, 1.0000, 1.0000),
+                       (0.8333, 1.0000, 1.0000),
+                       (1.0000, 1.0000, 1.0000)),
+
+             'green': ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 0.0000, 0.0000),
+                       (0.3333, 1.0000, 1.0000),
+                       (0.5020, 1.0000, 1.0000),
+                       (0.6667, 1.0000, 1.0000),
+                       (0.8333, 0.0000, 0.0000),
+                       (1.0000, 0.0000, 0.0000)),
+
+             'blue':  ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 1.0000, 1.0000),
+                       (0.3333, 1.0000, 1.0000),
+                       (0.5020, 1.0000, 1.0000),  # >0.5 for white (intpl bug?)
+                       (0.6667, 0.0000, 0.0000),
+                       (0.8333, 0.0000, 0.0000),
+                       (1.0000, 1.0000, 1.0000))}
+
+    return LinearSegmentedColormap('nio', cdict)
+
+
+# register cmap name for convenient use
+try:
+    plt.colormaps.register(cmap=nio_colormap())
+except NameError:
+    pass
+
+
+if __name__ == '__main__':
+    pass
-- 
2.43.0


From 8d81365bff76866bac0cb770ba56d39b6cf3bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 15/43] fix: mjd2000 silently overflowed for dates outside
 1678-2262

---
 chaosmagpy/data_utils.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index dbbc19e..3f8a331 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -438,7 +438,13 @@ datetime.datetime(2002, 3, 4)])
 
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+        if np.issubdtype(year.dtype, np.datetime64):
+            datetime = year
+        else:
+            datetime = year.astype('datetime64[us]')
+
+        days = datetime.astype('datetime64[D]')
+        rest = datetime - days
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
@@ -449,18 +455,21 @@ datetime.datetime(2002, 3, 4)])
         year_month = np.char.add(np.char.add(year, '-'), month)
         datetime = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        days = datetime.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
-                    + np.asarray(minute, dtype='timedelta64[m]')
-                    + np.asarray(second, dtype='timedelta64[s]')
-                    + np.asarray(microsecond, dtype='timedelta64[us]')
-                    + np.asarray(nanosecond, dtype='timedelta64[ns]'))
-
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
-
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+        rest = (np.asarray(hour, dtype='timedelta64[h]')
+                + np.asarray(minute, dtype='timedelta64[m]')
+                + np.asarray(second, dtype='timedelta64[s]')
+                + np.asarray(microsecond, dtype='timedelta64[us]')
+                + np.asarray(nanosecond, dtype='timedelta64[ns]'))
+
+    # whole days and rest separately, datetime64[ns] overflows before 1678
+    # and after 2262
+    days = days - np.datetime64('2000-01-01', 'D')
+    one_day = np.timedelta64(1, 'D')
+
+    return days / one_day + rest / one_day  # fraction of days
 
 
 def timestamp(time):
-- 
2.43.0


From e3e0fdecf003f7840f7f4085d52064244d98d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 16/43] fix: pp_from_bspline for repeated interior knots

The empty pieces between repeated interior knots were used instead of the
following non-empty ones.
---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 2f8dd4e..d8732b4 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -257,8 +257,8 @@ def pp_from_bspline(coeffs, knots, order):
         bs = BSpline(knots, coeffs[:, d], degree)
         pp = PPoly.from_spline(bs, extrapolate=False)
 
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+        # remove the empty pieces due to knot multiplicities
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(pp.x) > 0.]
 
     return coeffs_pp, breaks
 
-- 
2.43.0


From 23687e4a35c8a200d796dd6ca0373d4e9b3bf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 17/43] fix: CHAOS models with Euler angles but without Euler
 pre-rotation

Loading a mat-file without the parameter dictionary and building or saving a
model without meta raised a TypeError.
---
 chaosmagpy/chaos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index ba85529..50315e2 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1012,8 +1012,8 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
-                    Euler_prerotation = None
+                except (KeyError, TypeError, IndexError):
+                    Euler_prerotation = None  # not available
 
                 model = Base(
                     satellite,
@@ -2294,7 +2294,7 @@ str, {'internal', 'external'}
 
         if self.model_euler:
             # write Euler angles to matfile for each satellite
-            satellites = self.meta['satellites']
+            satellites = tuple([*self.model_euler.keys()])
 
             t_break_Euler = []  # list of Euler angle breaks for satellites
             alpha = []  # list of alpha for each satellite
-- 
2.43.0


From eeb85dc8933f08d6b84f0b556b782e917b91b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 18/43] fix: load_CHAOS_matfile must not extend the list of
 satellites in place

---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 50315e2..71102fe 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2522,6 +2522,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     if satellites is None:
         satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
                       'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)  # do not modify the input list
 
     mat_contents = du.load_matfile(filepath)
 
-- 
2.43.0


From e294814746fb65f6a9b56757463fca351da5c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 19/43] fix: load mat-files with a single bin of SM offsets
 qs11

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 71102fe..919fe1f 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2577,7 +2577,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
-- 
2.43.0


From f7111c48f1b1b5686e8b6557a57c6292c25d15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 20/43] fix: GSM field of CHAOS models without static internal
 field

synth_coeffs_gsm took the model period from the static model, which raised an
AttributeError if that part of the model was missing.
---
 chaosmagpy/chaos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 919fe1f..927ce5f 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -959,6 +959,9 @@ class CHAOS(object):
 
         self.name = str(name)
 
+        # model period
+        self._period = (breaks[0], breaks[-1])
+
         # internal field
         if coeffs_tdep is None:
             self.model_tdep = None
@@ -1569,8 +1572,7 @@ str, {'internal', 'external'}
         time = np.asarray(time, dtype=float)
 
         # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        start, end = self._period
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From 7dbb29535cb3fca7d5017a7ff300eecfa10aa19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 21/43] fix: save the static field of models without
 time-dependent field to shc

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 927ce5f..3048a41 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2224,7 +2224,8 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            nmin = (1 if self.model_tdep is None
+                    else self.model_tdep.nmax + 1)
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From 774df097163a1e6f4ae3402b7d09142cc185608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 22/43] fix: load calibration parameters saved with
 CHAOS.save_matfile

load_CHAOS_matfile raised an IndexError for such files since the cell array
with one element is read with shape (1,) instead of (1, 1).
---
 chaosmagpy/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 3f8a331..d190652 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -84,8 +84,8 @@ def load_matfile(filepath, variable_names=None, **kwargs):
 
             # if no fields in array
             if names is None:
-                if struct.dtype == np.dtype('O') and struct.shape == (1, 1):
-                    return traverse_struct(struct[0, 0])
+                if struct.dtype == np.dtype('O') and struct.size == 1:
+                    return traverse_struct(struct.item())
                 else:
                     return struct.squeeze()
 
-- 
2.43.0


From 496f97b6db6ed6536aefc07bff76c2ef74500c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 23/43] fix: save and load Euler angles of one satellite or of
 equal size

np.array(..., dtype=object) merged arrays of equal shape into a single object
array of numbers instead of a cell array with one element per satellite.
---
 chaosmagpy/chaos.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 3048a41..e75aec9 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2318,16 +2318,23 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            # cell array with one element for each satellite
+            def to_cell(arrays):
+                cell = np.empty((len(arrays),), dtype=object)
+                for k, array in enumerate(arrays):
+                    cell[k] = array
+                return cell
+
+            hdf.write(to_cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(to_cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(to_cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(to_cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
@@ -2594,8 +2601,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        # cell array of a single satellite has been reduced to its element
+        def from_cell(cell):
+            return cell if np.asarray(cell).dtype == object else [cell]
+
         # append generic satellite name if more data available or reduce
-        t_break_Euler = model_euler['t_break_Euler']
+        t_break_Euler = from_cell(model_euler['t_break_Euler'])
         n = len(t_break_Euler)
         m = len(satellites)
 
@@ -2613,8 +2624,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         coeffs_euler = dict()
         for num, satellite in enumerate(satellites):
 
-            angles = [model_euler[angle][num] for angle in [
-                'alpha', 'beta', 'gamma']]
+            angles = [np.reshape(from_cell(model_euler[angle])[num], (-1, 1))
+                      for angle in ['alpha', 'beta', 'gamma']]
             euler = np.concatenate(angles, axis=-1).astype(float)
 
             # first: order, second: number of intervals, third: 3 angles
@@ -2637,7 +2648,10 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+        if np.shape(prerotation) == (3,):  # angles of a single satellite
+            prerotation = np.reshape(prerotation, (1, 3))
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From 3ae902f641c6249e941002d950733a2e0b5bcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 24/43] fix: number of samples between the breaks in to_shc

np.arange may include the end point due to rounding, e.g. with 7 steps.
---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index e75aec9..671c382 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -739,8 +739,8 @@ class BaseModel(Base):
             times = np.array([], dtype=float)
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(
+                    times, np.linspace(start, end, num=step, endpoint=False))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From 55ce2262e8d8e1c1c136089cb8674a7e13ff3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 25/43] fix: convert the RC index before truncating the
 existing h5-file

A flag that cannot be encoded destroyed the existing RC-index file.
---
 chaosmagpy/data_utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index d190652..e8d93e0 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -199,16 +199,18 @@ def save_RC_h5file(filepath, read_from=None):
     try:
         df_rc = load_RC_datfile(read_from, parse_dates=False)
 
-        with h5py.File(filepath, 'w') as f:
+        # convert before opening since this truncates the existing file
+        variables = dict()
+        for column in df_rc.columns:
+            variable = df_rc[column].values
+            if column == 'flag':
+                variable = variable.astype('bytes').astype('S1')
+            variables[column] = variable
 
-            for column in df_rc.columns:
-                variable = df_rc[column].values
-                if column == 'flag':
-                    dset = f.create_dataset(column, variable.shape, dtype="S1")
-                    dset[:] = variable.astype('bytes')
+        with h5py.File(filepath, 'w') as f:
 
-                else:
-                    f.create_dataset(column, data=variable)  # just save floats
+            for column, variable in variables.items():
+                f.create_dataset(column, data=variable)
 
             print(f'Successfully saved to {f.filename}.')
 
-- 
2.43.0


From f70b736881fbdbffa1b5b7efd500cbdf81e79662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 26/43] fix: skip blank lines in load_shcfile

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index e8d93e0..26be14d 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -261,7 +261,7 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         data = np.array([])
         for line in f.readlines():
 
-            if line.strip().startswith(comment):
+            if not line.strip() or line.strip().startswith(comment):
                 continue
 
             newline = np.fromstring(line, sep=' ')
-- 
2.43.0


From 4627071a7e1543eb9dc59837b845afaea8c0dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 27/43] fix: treat any false scaled flag in synth_rotate_gauss
 alike

CHAOS.synth_coeffs_gsm/sm pass the flag as read from the npz-file, a 0-d
array for which 'is False' never holds, so unscaled spectra gave half the
rotation.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index a79d4e1..0a6803d 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From c2bb67faa4b4ab51edbed7e14886c65b65e27943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 28/43] fix: keep the longitude of cartesian_to_spherical in
 (-180, 180]

A negative zero or rounded y-component on the date line gave -180 degrees,
which the documented interval excludes.
---
 chaosmagpy/coordinate_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0a6803d..a9ebc2b 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -877,9 +877,12 @@ def cartesian_to_spherical(x, y, z):
 
     radius = np.sqrt(x**2 + y**2 + z**2)
     theta = np.arctan2(np.sqrt(x**2 + y**2), z)
-    phi = np.arctan2(y, x)
+    phi = np.degrees(np.arctan2(y, x))
 
-    return radius, np.degrees(theta), np.degrees(phi)
+    # a negative or rounded y on the date line gives -180, which is excluded
+    phi = np.where(phi == -180., 180., phi)[()]
+
+    return radius, np.degrees(theta), phi
 
 
 def gg_to_geo(height, beta, X=None, Z=None):
-- 
2.43.0


From 942b49130d21bd89075da8040a9950ffa6a8588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 29/43] fix: geodetic coordinates at and close to the poles in
 geo_to_gg

Round-off made the argument of a square root that vanishes at the poles
negative, so height and geodetic colatitude (and the vector components) were
returned as NaN there.
---
 chaosmagpy/coordinate_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index a9ebc2b..17a6f73 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -995,9 +995,9 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Notes
     -----
-    Round-off errors might lead to a failure of the algorithm especially but
-    not exclusively for points close to the geographic poles. Corresponding
-    geodetic coordinates are returned as NaN.
+    The algorithm fails for points close to Earth's center (distance of less
+    than about 43 km for WGS84). Corresponding geodetic coordinates are
+    returned as NaN.
 
     References
     ----------
@@ -1038,8 +1038,10 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Q = np.sqrt(1. + 2*e4*P)
 
-    r0 = -P*e2*r / (1. + Q) + np.sqrt(
-        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2)
+    # vanishes at the poles, where round-off can make it negative
+    root = 0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2
+
+    r0 = -P*e2*r / (1. + Q) + np.sqrt(np.maximum(root, 0.))
 
     U = np.sqrt((r - e2*r0)**2 + z2)
 
-- 
2.43.0


From e0954e946cdd4a8978aa262be28de0c7ec9a810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 30/43] fix: timestamp of dates between 1678 and 1707

The offset from 2000 in nanoseconds overflows before 1707-09-22, so NaT was
returned for dates that datetime64[ns] represents.
---
 chaosmagpy/data_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 26be14d..7bff152 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -499,11 +499,15 @@ def timestamp(time):
 
     """
 
-    # convert mjd2000 to timedelta64[ns]
-    ns = np.asarray(time) * 86400e9 * np.timedelta64(1, 'ns')
+    time = np.asarray(time)
+    days = np.floor(time)
 
-    # add datetime offset with ns precision
-    return ns + np.datetime64('2000-01-01', 'ns')
+    # convert to timedelta64[ns] with respect to the epoch of datetime64[ns],
+    # offsets from 2000 would overflow for dates between 1678 and 1707
+    days_ns = (days + 10957) * 86400e9 * np.timedelta64(1, 'ns')
+    rest_ns = (time - days) * 86400e9 * np.timedelta64(1, 'ns')
+
+    return np.datetime64('1970-01-01', 'ns') + days_ns + rest_ns
 
 
 def is_leap_year(year):
-- 
2.43.0


From f23036a70b829e6536e60b1701f0f193c7836707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 31/43] fix: reject non-numeric vectors in the configuration

basicConfig['params.dipole'] = ['a', 'b', 'c'] was accepted and failed only
when the dipole was used.
---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index c6e8027..2b6c87f 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From ff66d2937a4c75eb2e28003e59d8c4e869a3058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 32/43] fix: keep path objects assigned to file options when
 saving the config

BasicConfig.save wrote a pathlib.Path as null, so that load silently replaced
the file by None.
---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 2b6c87f..9f60c67 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -92,7 +92,7 @@ def check_path_exists(s):
     if s is None or s == 'None':
         return None
     if os.path.exists(s):
-        return s
+        return os.fspath(s)  # also path objects are saved as strings
     else:
         raise FileNotFoundError(f'{s} does not exist.')
 
-- 
2.43.0


From 9cb29f2a9653618b05b39d1909d573246194e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 33/43] fix: accuracy of q_response_1D with constant layers for
 high degrees

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 17a6f73..47d36ff 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1735,7 +1735,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         nl = radius.size-2  # index of last layer, there are nl+1 layers
 
         eps = 1.0e-10
-        zlimit = 3
+        zlimit = max(3, 0.7*n)  # finite sums cancel for small arguments
 
         fac1 = factorial(n)
         fac2 = (-1)**n * fac1/(2*n+1)
-- 
2.43.0


From 25a375ba1ebf25d40b97496254643ade07a36548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 34/43] fix: q_response_1D accepts a single period as
 documented

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 47d36ff..e7a2ccb 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1722,7 +1722,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From 39dfa7aebdcd4d745f3c55bc4b4a0f1514bfd724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 35/43] fix: reject unknown sources in the source_list of CHAOS
 models

---
 chaosmagpy/chaos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 671c382..f578f63 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1119,6 +1119,11 @@ str, {'internal', 'external'}
 
         source_list = np.ravel(np.array(source_list))
 
+        for source in source_list:
+            if source not in ('tdep', 'static', 'gsm', 'sm'):
+                raise ValueError(f'Unknown source "{source}". '
+                                 'Use {tdep, static, gsm, sm}.')
+
         verbose = bool(verbose)
 
         # get shape of broadcasted result
-- 
2.43.0


From 3564e50a8b020e95f14b9338cca5725f5435cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 36/43] fix: reject unknown model parts in CHAOS.save_shcfile

---
 chaosmagpy/chaos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f578f63..aec2c33 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2190,6 +2190,9 @@ str, {'internal', 'external'}
 
         model = 'tdep' if model is None else model
 
+        if model not in ('tdep', 'static'):
+            raise ValueError(f'Unknown model "{model}". Use {{tdep, static}}.')
+
         leap_year = False if leap_year is None else leap_year
 
         if model == 'tdep':
-- 
2.43.0


From 0ebbf200dff544e2640d65a84827f36ab0fc5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 37/43] fix: keep the existing RC h5-file if the source has no
 data

---
 chaosmagpy/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 7bff152..81feab1 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -199,6 +199,9 @@ def save_RC_h5file(filepath, read_from=None):
     try:
         df_rc = load_RC_datfile(read_from, parse_dates=False)
 
+        if df_rc.empty:
+            raise ValueError('No data found.')
+
         # convert before opening since this truncates the existing file
         variables = dict()
         for column in df_rc.columns:
-- 
2.43.0


From d2e10364482e8b3b9d5152c2de18dab37c37027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 38/43] fix: restore the CRLF line endings of chaos.py,
 model_utils.py, plot_utils.py

Earlier fix commits had converted them to LF; no code change.
---
 chaosmagpy/chaos.py       | 6334 ++++++++++++++++++-------------------
 chaosmagpy/model_utils.py | 2342 +++++++-------
 chaosmagpy/plot_utils.py  |  746 ++---
 3 files changed, 4711 insertions(+), 4711 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index aec2c33..f273cec 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1,3167 +1,3167 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.chaos` provides classes and functions to read the CHAOS model and
-other geomagnetic field models.
-
-.. autosummary::
-    :toctree: classes
-    :template: myclass.rst
-
-    Base
-    BaseModel
-    CHAOS
-
-.. autosummary::
-    :toctree: functions
-
-    load_CHAOS_matfile
-    load_CHAOS_shcfile
-    load_CovObs_txtfile
-    load_gufm1_txtfile
-    load_CALS7K_txtfile
-    load_IGRF_txtfile
-
-"""
-
-import numpy as np
-import os
-import warnings
-import scipy.interpolate as sip
-import hdf5storage as hdf
-import h5py
-import textwrap
-import datetime
-from math import factorial
-from timeit import default_timer as timer
-from . import coordinate_utils as cu
-from . import model_utils as mu
-from . import data_utils as du
-from . import plot_utils as pu
-from . import config_utils
-
-
-class Base(object):
-    """
-    Piecewise polynomial base class.
-
-    """
-
-    def __init__(self, name, breaks=None, order=None, coeffs=None, meta=None):
-
-        self.name = str(name)
-
-        # ensure breaks is None or has 2 elements
-        if breaks is not None:
-            breaks = np.asarray(breaks, dtype=float)
-            if breaks.size == 1:
-                breaks = np.append(breaks, breaks)
-
-        self.breaks = breaks
-
-        self.pieces = None if breaks is None else int(breaks.size - 1)
-
-        if coeffs is None:
-            self.coeffs = coeffs
-            self.order = None if order is None else int(order)
-            self.dim = None
-
-        else:
-            coeffs = np.asarray(coeffs, dtype=float)
-
-            if order is None:
-                self.order = coeffs.shape[0]
-            else:
-                self.order = min(int(order), coeffs.shape[0])
-
-            self.coeffs = coeffs[-self.order:]
-            self.dim = coeffs.shape[-1]
-
-        self.meta = meta
-
-    def synth_coeffs(self, time, *, dim=None, deriv=None, extrapolate=None):
-        """
-        Compute the coefficients from the piecewise polynomial representation.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian date.
-        dim : int, positive, optional
-            Truncation value of the number of coefficients (no truncation by
-            default).
-        deriv : int, positive, optional
-            Derivative in time (None defaults to 0).
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the piecewise polynomial bounds.
-            Specify the polynomial degree as string or the order as an integer.
-            Defaults to ``'linear'`` (equiv. to order-2 polynomials).
-
-             +------------+---------------------------------------------------+
-             | Value      | Description                                       |
-             +============+===================================================+
-             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
-             +------------+---------------------------------------------------+
-             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
-             +------------+---------------------------------------------------+
-             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
-             +------------+---------------------------------------------------+
-             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
-             +------------+---------------------------------------------------+
-             | 'spline'   | Use all degree polynomials.                       |
-             +------------+---------------------------------------------------+
-             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
-             +------------+---------------------------------------------------+
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``dim``)
-            Array containing the coefficients.
-
-        """
-
-        if (self.coeffs is None) or (self.coeffs.size == 0):
-            raise ValueError(f'Coefficients of "{self.name}" are missing.')
-
-        # handle optional argument: dim
-        if dim is None:
-            dim = self.dim
-        elif dim > self.dim:
-            warnings.warn(
-                'Supplied dim = {0} is incompatible with number of '
-                'coefficients. Using dim = {1} instead.'.format(
-                    dim, self.dim))
-            dim = self.dim
-
-        if deriv is None:
-            deriv = 0
-
-        if extrapolate is None:
-            extrapolate = 'linear'  # linear extrapolation
-
-        # setting spline interpolation
-        PP = sip.PPoly.construct_fast(
-            self.coeffs[..., :dim].astype(float),
-            self.breaks.astype(float), extrapolate=True)
-
-        start = self.breaks[0]
-        end = self.breaks[-1]
-
-        if (np.amin(time) < start) or (np.amax(time) > end):
-
-            dkey = {
-                'linear': 2,
-                'quadratic': 3,
-                'cubic': 4,
-                'constant': 1,
-                'spline': self.order,
-                'off': 0
-            }
-
-            # convert extrapolation input to integer
-            if isinstance(extrapolate, bool):
-                key = 2 if extrapolate else 0
-
-            elif isinstance(extrapolate, str):
-                try:
-                    key = dkey[extrapolate]
-                except KeyError:
-                    string = '", "'.join([str(key) for key in dkey.keys()])
-                    raise ValueError(
-                        f'Unknown extrapolation method "{extrapolate}". Use '
-                        f'one of {{"{string}"}}.')
-
-            else:
-                key = int(extrapolate)  # ensure integer (if float, etc)
-
-            key = min(key, self.order)  # extrapolation at most equal to spline
-
-            if key == 0:
-                message = 'no'
-
-            else:
-                rev_dkey = {v: k for k, v in dkey.items()}
-                try:
-                    message = rev_dkey[key]
-                except KeyError:
-                    message = f'order-{key} spline'
-
-            warnings.warn("Requested coefficients are "
-                          "outside of the model time period from "
-                          f"{start} to {end} Modified Julian Date 2000. "
-                          f"Doing {message} extrapolation of the "
-                          "coefficient time series.")
-
-            if key > 0:
-                for x in [start, end]:  # left and right
-                    bin = np.zeros((self.order, 1, dim))
-                    for k in range(key):
-                        bin[-1-k] = PP(x, nu=k) / factorial(k)
-                    PP.extend(bin, np.array([x]))
-                # end point itself belongs to the last piece of the model
-                PP.x[-2:] = np.nextafter(end, np.inf)
-
-            else:  # no extrapolation
-                PP.extrapolate = False
-
-        PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
-
-        return coeffs
-
-    def to_ppdict(self):
-        """
-        Return a dictionary of the piecewise polynomial that is compatible with
-        MATLAB's pp-form.
-
-        Returns
-        -------
-        pp : dict
-            Dictionary of the pp-form compatible with MATLAB. Elements are
-            NumPy arrays.
-
-        See Also
-        --------
-        Base.save_matfile
-
-        """
-
-        pp = dict(
-            form='pp',
-            order=np.array(self.order, float),
-            pieces=np.array(self.pieces, float),
-            dim=np.array(self.dim, float),
-            breaks=self.breaks.copy().reshape((1, -1)),  # ensure 2d
-            coefs=np.reshape(self.coeffs.copy(), (self.order, -1)).transpose()
-        )
-
-        return pp
-
-    def save_matfile(self, filepath, path=None):
-        """
-        Save piecewise polynomial as MAT-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Filepath and name of MAT-file.
-        path : str
-            Location in MAT-file. Defaults to ``'/pp'``.
-
-        See Also
-        --------
-        Base.to_ppdict
-
-        """
-
-        if path is None:
-            path = '/pp'
-
-        pp = self.to_ppdict()
-
-        hdf.write(pp, path=path, filename=filepath, matlab_compatible=True)
-
-
-class BaseModel(Base):
-    """
-    Class for piecewise polynomial spherical harmonic models.
-
-    Parameters
-    ----------
-    name : str
-        User specified name of the model.
-    breaks : ndarray, shape (m+1,)
-        Break points (`m` pieces plus one) for the piecewise polynomial
-        representation of the field model in modified Julian date format.
-        If a single break point is given, it is appended to itself to have two
-        points defining the model interval (single piece).
-    order : int, positive
-        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
-    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
-        Coefficients of the piecewise polynomial representation of the
-        field model.
-    source : {'internal', 'external'}
-        Internal or external source (defaults to ``'internal'``)
-    meta : dict, optional
-        Dictionary containing additional information about the model if
-        available.
-
-    Attributes
-    ----------
-    breaks : ndarray, shape (m+1,)
-        Break points (`m` pieces plus one) for the piecewise polynomial
-        representation of the field model in modified Julian date format.
-    pieces : int, positive
-        Number `m` of intervals given by break points in ``breaks``.
-    order : int, positive
-        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
-    nmax : int, positive
-        Maximum spherical harmonic degree of the field model.
-    dim : int, ``nmax`` * (``nmax`` + 2)
-        Dimension of the model.
-    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
-        Coefficients of the time-dependent field.
-    source : {'internal', 'external'}
-        Internal or external source (defaults to ``'internal'``)
-    meta : dict, optional
-        Dictionary containing additional information about the model if
-        available.
-
-    """
-
-    def __init__(self, name, breaks=None, order=None, coeffs=None,
-                 source=None, meta=None):
-        """
-        Initialize spherical harmonic model as a piecewise polynomial.
-
-        """
-
-        super().__init__(name, breaks=breaks, order=order, coeffs=coeffs,
-                         meta=meta)
-
-        if self.dim is None:
-            self.nmax = None
-        else:
-            self.nmax = int(np.sqrt(self.dim + 1) - 1)
-
-        self.source = 'internal' if source is None else source
-
-    def synth_coeffs(self, time, *, nmax=None, deriv=None, extrapolate=None):
-        """
-        Compute the coefficients from the piecewise polynomial representation.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-             +------------+---------------------------------------------------+
-             | Value      | Description                                       |
-             +============+===================================================+
-             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
-             +------------+---------------------------------------------------+
-             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
-             +------------+---------------------------------------------------+
-             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
-             +------------+---------------------------------------------------+
-             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
-             +------------+---------------------------------------------------+
-             | 'spline'   | Use all degree polynomials.                       |
-             +------------+---------------------------------------------------+
-             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
-             +------------+---------------------------------------------------+
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Array containing the coefficients.
-
-        """
-
-        dim = None if nmax is None else int(nmax*(nmax+2))
-        coeffs = super().synth_coeffs(time, dim=dim, deriv=deriv,
-                                      extrapolate=extrapolate)
-
-        return coeffs
-
-    def synth_values(self, time, radius, theta, phi, *, nmax=None,
-                     deriv=None, grid=None, extrapolate=None):
-        """
-        Compute magnetic components from the field model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian date.
-        radius : ndarray, shape (...) or float
-            Radius in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid.
-            Arrays ``theta`` and ``phi`` must have one dimension less than the
-            output grid since the grid will be created as their outer product.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        """
-
-        if nmax is None:
-            nmax = self.nmax
-        elif nmax > self.nmax:
-            warnings.warn(
-                f'Supplied nmax = {nmax} is incompatible with number of '
-                f'coefficients. Using nmax = {self.nmax} instead.'
-            )
-            nmax = self.nmax
-
-        coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,
-                                   extrapolate=extrapolate)
-
-        return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,
-                               source=self.source, grid=grid)
-
-    def power_spectrum(self, time, radius=None, **kwargs):
-        """
-        Compute the spatial power spectrum.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...)
-            Time in modified Julian date.
-        radius : float, optional
-            Radius in kilometers (defaults to Earth's surface defined in
-            ``basicConfig['r_surf']``).
-
-        Returns
-        -------
-        R_n : ndarray, shape (..., ``nmax``)
-            Spatial power spectrum of the spherical harmonic expansion up to
-            degree ``nmax``.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.synth_coeffs` method.
-
-        See Also
-        --------
-        chaosmagpy.model_utils.power_spectrum
-
-        """
-
-        if radius is None:
-            radius = config_utils.basicConfig['params.r_surf']
-
-        coeffs = self.synth_coeffs(time, **kwargs)
-        spec = mu.power_spectrum(coeffs, radius, source=self.source)
-
-        return spec
-
-    def plot_power_spectrum(self, time, **kwargs):
-        """
-        Plot the spatial power spectrum.
-
-        Parameters
-        ----------
-        time : float
-            Time in modified Julian date.
-
-        Other Parameters
-        ----------------
-        radius : float, optional
-            Radius in kilometers (defaults to Earth's surface defined in
-            basicConfig['r_surf']).
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.model_utils.power_spectrum
-
-        """
-
-        defaults = dict(radius=None,
-                        deriv=0,
-                        nmax=self.nmax,
-                        titles='spatial power spectrum')
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        radius = kwargs.pop('radius')
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-
-        units = f'({du.gauss_units(deriv)})$^2$'
-        kwargs.setdefault('ylabel', units)
-
-        R_n = self.power_spectrum(time, radius, nmax=nmax, deriv=deriv)
-
-        pu.plot_power_spectrum(R_n, **kwargs)
-
-    def plot_maps(self, time, radius, **kwargs):
-        """
-        Plot global maps of the field components.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time in modified Julian date.
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options are passed to :func:`plot_utils.plot_maps`
-            function.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.plot_utils.plot_maps
-
-        """
-
-        defaults = dict(deriv=0, nmax=self.nmax)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        # remove keywords that are not intended for pcolormesh
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
-
-        # add plot_maps options to dictionary
-        kwargs.setdefault('label', du.gauss_units(deriv))
-        kwargs.setdefault('titles', titles)
-
-        # handle optional argument: nmax > coefficient nmax
-        if nmax > self.nmax:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.nmax))
-            nmax = self.nmax
-
-        time = np.array(time, dtype=float)
-        theta = np.linspace(1, 179, num=320)
-        phi = np.linspace(-180, 180, num=640)
-
-        B_radius, B_theta, B_phi = self.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv,
-            grid=True, extrapolate=None)
-
-        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi, **kwargs)
-
-    def plot_timeseries(self, radius, theta, phi, **kwargs):
-        """
-        Plot the time series of the time-dependent field components at a
-        specific location.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (), (1,) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (), (1,) or float
-            Longitude in degrees.
-
-        Other Parameters
-        ----------------
-        nmax : int, positive, optional
-            Maximum degree of the harmonic expansion (default is given by the
-            model coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
-            Extrapolate to times outside of the model bounds. Defaults to
-            ``'linear'``.
-        **kwargs : keywords
-            Other options to pass to :func:`plot_utils.plot_timeseries`
-            function.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        See Also
-        --------
-        chaosmagpy.plot_utils.plot_timeseries
-
-        """
-
-        defaults = dict(deriv=0,
-                        nmax=self.nmax,
-                        titles=['$B_r$', '$B_\\theta$', '$B_\\phi$'],
-                        extrapolate=None)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        # remove keywords that are not intended for pcolormesh
-        nmax = kwargs.pop('nmax')
-        deriv = kwargs.pop('deriv')
-        extrapolate = kwargs.pop('extrapolate')
-
-        # add options to dictionary
-        kwargs.setdefault('ylabel', du.gauss_units(deriv))
-
-        time = np.linspace(self.breaks[0], self.breaks[-1], num=500)
-
-        B_radius, B_theta, B_phi = self.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv,
-            extrapolate=extrapolate)
-
-        pu.plot_timeseries(time, B_radius, B_theta, B_phi, **kwargs)
-
-    @classmethod
-    def from_bspline(cls, name, knots, coeffs, order, source=None, meta=None):
-        """
-        Return BaseModel instance from a B-spline representation.
-
-        Parameters
-        ----------
-        name : str
-            User specified name of the model.
-        knots : ndarray, shape (N,)
-            B-spline knots. Knots must have endpoint multiplicity equal to
-            ``order``. Zero-pad ``coeffs`` if needed.
-        coeffs : ndarray, shape (M, D)
-            Bspline coefficients for the `M` B-splines parameterizing
-            `D` dimensions.
-        order : int
-            Order of the B-spline.
-        source : {'internal', 'external'}
-            Internal or external source (defaults to ``'internal'``)
-        meta : dict, optional
-            Dictionary containing additional information about the model.
-
-        Returns
-        -------
-        model : :class:`BaseModel`
-            Class :class:`BaseModel` instance.
-
-        """
-
-        coeffs_pp, breaks = mu.pp_from_bspline(coeffs, knots, order)
-
-        return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
-                   source=source, meta=meta)
-
-    def to_shc(self, filepath, *, leap_year=None, nmin=None, nmax=None,
-               header=None):
-        """
-        Save spherical harmonic coefficients to a file in `shc`-format.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of output file `*.shc`.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-        nmin : int, optional
-            Minimum spherical harmonic degree (defaults to 1). This will remove
-            first values from coeffs if greater than 1.
-        nmax : int, optional
-            Maximum spherical harmonic degree (defaults to the maximum degree
-            of the model given by ``self.nmax``).
-        header : str, optional
-            Optional header at beginning of file (defaults to a comment line
-            with the name of the model given by ``self.name``).
-
-        """
-
-        leap_year = False if leap_year is None else leap_year
-        header = f"# {self.name}\n" if header is None else header
-        nmin = 1 if nmin is None else int(nmin)
-        nmax = self.nmax if nmax is None else int(nmax)
-
-        if self.coeffs is None:
-            raise ValueError("Spline coefficients are missing.")
-
-        step = max(self.order - 1, 1)
-
-        # compute times in mjd2000
-        if (self.order == 1):
-            # piecewise constant, drop coefficients at last break point
-            times = self.breaks[:-1]
-
-        else:
-            # insert extra samples in between break points
-            times = np.array([], dtype=float)
-
-            for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                times = np.append(
-                    times, np.linspace(start, end, num=step, endpoint=False))
-
-            times = np.append(times, self.breaks[-1])
-
-        gauss_coeffs = self.synth_coeffs(times, nmax=self.nmax)
-
-        du.save_shcfile(times, gauss_coeffs, order=self.order,
-                        filepath=filepath, nmin=nmin, nmax=nmax,
-                        leap_year=leap_year, header=header)
-
-    @classmethod
-    def from_shc(cls, filepath, *, name=None, leap_year=None,
-                 source=None, meta=None):
-        """
-        Return BaseModel instance by loading a model from an SHC-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to SHC-file.
-        name : str, optional
-            User defined name of the model. Defaults to the filename without
-            the file extension.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-        source : {'internal', 'external'}
-            Internal or external source (defaults to ``'internal'``)
-        meta : dict, optional
-            Dictionary containing additional information about the model.
-
-        Returns
-        -------
-        model : :class:`BaseModel`
-            Class :class:`BaseModel` instance.
-
-        """
-
-        if name is None:
-            # get name without extension
-            name = os.path.splitext(os.path.basename(filepath))[0]
-
-        source = 'internal' if source is None else source
-        leap_year = False if leap_year is None else leap_year
-
-        time, coeffs, params = du.load_shcfile(filepath, leap_year=leap_year)
-
-        coeffs = coeffs.T  # (Nt, Nc): simplifies array manipulations
-
-        nmin = params['nmin']
-        nmax = params['nmax']
-        order = params['order']
-        step = max(params['step'], 1)
-
-        if order == 1:
-            # piecewise constant
-            # duplicate endpoint to have a proper interval for the polynomial
-            breaks = np.append(time, time[-1])  # zero length interval is ok
-        else:
-            breaks = time[::step]
-
-        # need to pad coefficients if nmin > 1 (no n < nmin coeffs in shc file)
-        if nmin > 1:
-            coeffs_pad = np.zeros((coeffs.shape[0], nmax*(nmax + 2)))
-            coeffs_pad[:, int(nmin**2 - 1):] = coeffs
-        else:
-            coeffs_pad = coeffs
-
-        if (order == 1):  # piecewise constant
-
-            coeffs_pp = coeffs_pad[None, ...]  # insert singleton at 0th axis
-
-            return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
-                       source=source, meta=meta)
-
-        else:  # model must be time-dependent (incl. piecewise constant)
-
-            # there may be extra sites to extend the model interval,
-            # but these extrapolation sites are just discarded here
-            end = ((time.size - 1) // step) * step + 1
-
-            knots = mu.augment_breaks(breaks, order)
-            spl = sip.make_lsq_spline(time[:end], coeffs_pad[:end, :],
-                                      knots, order - 1)
-            coeffs_pp = spl.c.copy()
-
-            # convert B-spline basis to PPoly
-            return cls.from_bspline(name, knots=knots, coeffs=coeffs_pp,
-                                    order=order, source=source, meta=meta)
-
-
-class CHAOS(object):
-    """
-    Class for the time-dependent geomagnetic field model CHAOS.
-
-    Parameters
-    ----------
-    breaks : ndarray, shape (m+1,)
-        Break points for piecewise polynomial representation of the
-        time-dependent internal (i.e. large-scale core) field in modified
-        Julian date format.
-    order : int, positive
-        Order `k` of polynomial pieces (e.g. 4 = cubic) of the time-dependent
-        internal field.
-    coeffs_tdep : ndarray, shape (`k`, `m`, ``n_tdep`` * (``n_tdep`` + 2))
-        Coefficients of the time-dependent internal field as piecewise
-        polynomial.
-    coeffs_static : ndarray,  shape (``n_static`` * (``n_static`` + 2),)
-        Coefficients of the static internal (i.e. small-scale crustal) field.
-    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
-        Coefficients of the static external field in SM coordinates.
-    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
-        Coefficients of the static external field in GSM coordinates.
-    breaks_delta : dict with ndarrays, shape (:math:`m_q` + 1,)
-        Breaks of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
-        Coefficients of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    breaks_euler : dict with ndarrays, shape (:math:`m_e` + 1,)
-        Dictionary containing satellite name as key and corresponding break
-        vectors of Euler angles (keys are ``'oersted'``, ``'champ'``,
-        ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``, ``'swarm_c'``,
-        ``'cryosat-2_1'``).
-    coeffs_euler : dict with ndarrays, shape (1, :math:`m_e`, 3)
-        Dictionary containing satellite name as key and arrays of the Euler
-        angles alpha, beta and gamma as trailing dimension (keys are
-        ``'oersted'``, ``'champ'``, ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``,
-        ``'swarm_c'``, ``'cryosat-2_1'``).
-    breaks_cal : dict with ndarrays, shape (:math:`m_c` + 1,)
-        Dictionary containing satellite name as key and corresponding break
-        vectors for the calibration parameters (keys are ``'cryosat-2_1'``).
-    coeffs_cal : dict with ndarrays, shape (1, :math:`m_c`, 3)
-        Dictionary containing satellite name as key and arrays of the 9 basic
-        calibration parameters (3 offsets, 3 sensitivities, 3
-        non-orthogonality angles) (keys are ``'cryosat-2_1'``).
-    name : str, optional
-        User defined name of the model. Defaults to ``'CHAOS'``.
-    meta : dict, optional
-        Dictionary containing additional information about the model.
-
-    Attributes
-    ----------
-    timestamp : str
-        UTC timestamp at initialization.
-    model_tdep : :class:`BaseModel` instance
-        Time-dependent internal field model.
-    model_static : :class:`BaseModel` instance
-        Static internal field model.
-    model_euler : dict of :class:`Base` instances
-        Dictionary containing the satellite's name as key and the Euler angles
-        as :class:`Base` class instance.
-    model_cal : dict of :class:`Base` instances
-        Dictionary containing the satellite's name as key and the calibration
-        parameters as :class:`Base` class instance.
-    n_sm : int, positive
-        Maximum spherical harmonic degree of external field in SM coordinates.
-    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
-        Coefficients of static external field in SM coordinates.
-    n_gsm : int, positive
-        Maximum spherical harmonic degree of external field in GSM coordinates.
-    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
-        Coefficients of static external field in GSM coordinates.
-    breaks_delta : dict with ndarrays, shape (:math:`m_q` +1,)
-        Breaks of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
-        Coefficients of baseline corrections of static external field in SM
-        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
-    name : str, optional
-        User defined name of the model.
-    meta : dict, optional
-        Dictionary containing additional information about the model.
-
-    Examples
-    --------
-    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-    directory like this:
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-    >>> print(model)
-
-    For more examples, see the documentation of the methods below.
-
-    """
-
-    def __init__(
-        self,
-        breaks,
-        order=None,
-        *,
-        coeffs_tdep=None,
-        coeffs_static=None,
-        coeffs_sm=None,
-        coeffs_gsm=None,
-        breaks_delta=None,
-        coeffs_delta=None,
-        breaks_euler=None,
-        coeffs_euler=None,
-        breaks_cal=None,
-        coeffs_cal=None,
-        name=None,
-        meta=None
-    ):
-        """
-        Initialize the CHAOS model.
-
-        """
-
-        self.timestamp = str(datetime.datetime.now(datetime.timezone.utc))
-
-        # give the model a name: CHAOS or user input
-        if name is None:
-            name = "CHAOS"
-
-        self.name = str(name)
-
-        # model period
-        self._period = (breaks[0], breaks[-1])
-
-        # internal field
-        if coeffs_tdep is None:
-            self.model_tdep = None
-        else:
-            self.model_tdep = BaseModel(
-                name=name + '_tdep',
-                breaks=breaks,
-                order=order,
-                coeffs=coeffs_tdep,
-                source='internal'
-            )
-
-        if coeffs_static is None:
-            self.model_static = None
-        else:
-            self.model_static = BaseModel(
-                name=name + '_static',
-                breaks=breaks[[0, -1]],
-                order=1,
-                coeffs=coeffs_static,
-                source='internal'
-            )
-
-        # helper for returning the degree of the provided coefficients
-        def dimension(coeffs):
-            if coeffs is None:
-                return coeffs
-            else:
-                return int(np.sqrt(coeffs.shape[-1] + 1) - 1)
-
-        # external source in SM reference
-        self.coeffs_sm = coeffs_sm
-        self.n_sm = dimension(coeffs_sm)
-
-        # external source in GSM reference
-        self.coeffs_gsm = coeffs_gsm
-        self.n_gsm = dimension(coeffs_gsm)
-
-        # external source in SM reference: RC offset
-        self.breaks_delta = breaks_delta
-        self.coeffs_delta = coeffs_delta
-
-        # Euler angles
-        if breaks_euler is None:
-            self.model_euler = None
-        else:
-            satellites = tuple([*breaks_euler.keys()])
-            self.model_euler = dict()
-
-            for k, satellite in enumerate(satellites):
-
-                try:
-                    Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except (KeyError, TypeError, IndexError):
-                    Euler_prerotation = None  # not available
-
-                model = Base(
-                    satellite,
-                    order=1,
-                    breaks=breaks_euler[satellite],
-                    coeffs=coeffs_euler[satellite],
-                    meta={
-                        'Euler_prerotation': Euler_prerotation
-                    }
-                )
-                self.model_euler[satellite] = model
-
-        # calibration parameters
-        if breaks_cal is None:
-            self.model_cal = None
-        else:
-            satellites = tuple([*breaks_cal.keys()])
-            self.model_cal = dict()
-
-            for k, satellite in enumerate(satellites):
-
-                model = Base(
-                    satellite,
-                    order=1,
-                    breaks=breaks_cal[satellite],
-                    coeffs=coeffs_cal[satellite],
-                )
-                self.model_cal[satellite] = model
-
-        self.meta = meta
-
-    def __call__(self, time, radius, theta, phi, rc_e=None, rc_i=None,
-                 source_list=None, nmax_static=None, verbose=None):
-        """
-        Calculate the magnetic field of all sources from the CHAOS model.
-
-        All sources means the time-dependent and static internal fields, and
-        the external magnetospheric (SM/GSM) fields including their
-        induced parts.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        rc_e : ndarray, shape (...), optional
-            External part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        rc_i : ndarray, shape (...), optional
-            Internal part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        source_list : list, ['tdep', 'static', 'gsm', 'sm'] or \
-str, {'internal', 'external'}
-            Specify sources in any order. Default is all sources. Instead of a
-            list, pass ``source_list='internal'`` which is equivalent to
-            ``source_list=['tdep', 'static']`` (internal sources) or
-            ``source_list='external'`` which is the same as
-            ``source_list=['gsm', 'sm']`` (external sources including induced
-            part).
-        nmax_static : int, optional
-            Maximum spherical harmonic degree of the static internal magnetic
-            field (defaults to 85).
-        verbose : {False, True}, optional
-            Print messages (defaults to ``False``).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> Br, Bt, Bp = model(0., 6371.2, 45., 0., source_list=['tdep', \
-'static'])  # only internal sources
-        >>> Br
-        array(-40418.23217586)
-
-        """
-
-        time = np.asarray(time, dtype=float)
-        radius = np.asarray(radius, dtype=float)
-        theta = np.asarray(theta, dtype=float)
-        phi = np.asarray(phi, dtype=float)
-
-        if source_list is None:
-            source_list = ['tdep', 'static', 'gsm', 'sm']
-
-        elif source_list == 'internal':
-            source_list = ['tdep', 'static']
-
-        elif source_list == 'external':
-            source_list = ['gsm', 'sm']
-
-        source_list = np.ravel(np.array(source_list))
-
-        for source in source_list:
-            if source not in ('tdep', 'static', 'gsm', 'sm'):
-                raise ValueError(f'Unknown source "{source}". '
-                                 'Use {tdep, static, gsm, sm}.')
-
-        verbose = bool(verbose)
-
-        # get shape of broadcasted result
-        try:
-            b = np.broadcast(time, radius, theta, phi)
-        except ValueError:
-            print('Cannot broadcast grid shapes:')
-            print(f'time:   {time.shape}')
-            print(f'radius: {radius.shape}')
-            print(f'theta:  {theta.shape}')
-            print(f'phi:    {phi.shape}')
-            raise
-
-        grid_shape = b.shape
-
-        B_radius = np.zeros(grid_shape)
-        B_theta = np.zeros(grid_shape)
-        B_phi = np.zeros(grid_shape)
-
-        if 'tdep' in source_list:
-
-            if verbose:
-                print(f'Computing time-dependent internal field'
-                      f' up to degree {self.model_tdep.nmax}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_tdep(
-                time, radius, theta, phi)
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'static' in source_list:
-
-            nmax_static = 85 if nmax_static is None else nmax_static
-
-            if verbose:
-                print(f'Computing static internal (i.e. small-scale crustal) '
-                      f'field up to degree {nmax_static}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_static(
-                radius, theta, phi, nmax=nmax_static)
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'gsm' in source_list:
-
-            if verbose:
-                print(f'Computing GSM field up to degree {self.n_gsm}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_gsm(
-                time, radius, theta, phi, source='all')
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        if 'sm' in source_list:
-
-            if verbose:
-                print(f'Computing SM field up to degree {self.n_sm}.')
-
-            s = timer()
-            B_radius_new, B_theta_new, B_phi_new = self.synth_values_sm(
-                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')
-
-            B_radius += B_radius_new
-            B_theta += B_theta_new
-            B_phi += B_phi_new
-            e = timer()
-
-            if verbose:
-                print('Finished in {:.6} seconds.'.format(e-s))
-
-        return B_radius, B_theta, B_phi
-
-    def __str__(self):
-        """
-        Print model version and initialization timestamp.
-        """
-
-        string = (f"{self.name}: Initialized on {self.timestamp} UTC.")
-
-        return string
-
-    def synth_coeffs_tdep(self, time, *, nmax=None, **kwargs):
-        """
-        Compute the spherical harmonic coefficients of the time-dependent
-        internal magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.synth_coeffs`
-            method.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Coefficients of the time-dependent internal field.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-
-        >>> model.synth_coeffs_tdep(time, nmax=1)  # dipole coefficients
-        array([[-29614.72797782,  -1728.47079907,   5185.50518939],
-               [-29614.33800306,  -1728.13680075,   5184.89196286]])
-
-        >>> model.synth_coeffs_tdep(time, nmax=1, deriv=1)  # SV coefficients
-        array([[ 14.25577646,  12.20214856, -22.43412895],
-               [ 14.2317297 ,  12.19625726, -22.36146885]])
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        return self.model_tdep.synth_coeffs(time, nmax=nmax, **kwargs)
-
-    def synth_values_tdep(self, time, radius, theta, phi, *, nmax=None,
-                          deriv=None, grid=None, extrapolate=None):
-        """
-        Compute the vector components of the time-dependent internal
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in modified Julian dates.
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (None defaults to 0). For secular variation,
-            choose ``deriv=1``.
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid.
-            Arrays ``theta`` and ``phi`` must have one dimension less than the
-            output grid since the grid will be created as their outer product.
-        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
-'off'} or int, optional
-            Extrapolate to times outside of the model bounds. Specify
-            polynomial degree as string or any order as integer. Defaults to
-            ``'linear'`` (equiv. to order 2 polynomials).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-
-        Compute magnetic field components at specific location.
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-40422.44815265, -40423.15091334])
-
-        Only dipole contribution:
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0., nmax=1)
-        >>> Br
-        array([-44325.97679843, -44324.95294588])
-
-        Secular variation:
-
-        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.,\
- deriv=1)
-        >>> Br
-        array([-25.64604374, -25.69002078])
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        return self.model_tdep.synth_values(
-            time, radius, theta, phi, nmax=nmax, deriv=deriv, grid=grid,
-            extrapolate=extrapolate)
-
-    def plot_timeseries_tdep(self, radius, theta, phi, **kwargs):
-        """
-        Plot the time series of the time-dependent internal field from the
-        CHAOS model at a given location.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (), (1,) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (), (1,) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options to pass to :meth:`BaseModel.plot_timeseries`
-            method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        self.model_tdep.plot_timeseries(radius, theta, phi, **kwargs)
-
-    def plot_maps_tdep(self, time, radius, *, nmax=None, deriv=None, **kwargs):
-        """
-        Plot global map of the time-dependent internal field from the CHAOS
-        model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time given as MJD2000 (modified Julian date).
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        deriv : int, positive, optional
-            Derivative in time (default is 0). For secular variation, choose
-            ``deriv=1``.
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.plot_maps` method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_tdep is None:
-            raise ValueError("Time-dependent internal field coefficients "
-                             "are missing.")
-
-        self.model_tdep.plot_maps(time, radius, nmax=nmax,
-                                  deriv=deriv, **kwargs)
-
-    def synth_coeffs_static(self, *, nmax=None, **kwargs):
-        """
-        Compute the spherical harmonic coefficients of the static internal
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.synth_coeffs`
-            method.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (``nmax`` * (``nmax`` + 2),)
-            Coefficients of the static internal field.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_static(nmax=50)
-        array([ 0.     , 0.     ,  0.     , ...,  0.01655, -0.06339,  0.00715])
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        time = self.model_static.breaks[0]
-        return self.model_static.synth_coeffs(time, nmax=nmax, **kwargs)
-
-    def synth_values_static(self, radius, theta, phi, *, nmax=None, **kwargs):
-        """
-        Compute the vector components of the static internal magnetic field
-        from the CHAOS model.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (...) or float
-            Radius of station in kilometers.
-        theta : ndarray, shape (...) or float
-            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
-        phi : ndarray, shape (...) or float
-            Longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.synth_values`
-            method.
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> Br, Bt, Bp = model.synth_values_static(6371.2, 45., 0., nmax=50)
-        >>> Br
-        array(-7.5608993)
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        time = self.model_static.breaks[0]
-        return self.model_static.synth_values(time, radius, theta, phi,
-                                              nmax=nmax, **kwargs)
-
-    def plot_maps_static(self, radius, *, nmax=None, **kwargs):
-        """
-        Plot global map of the static internal field from the CHAOS model.
-
-        Parameters
-        ----------
-        radius : ndarray, shape (), (1,) or float
-            Array containing the radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        **kwargs : keywords
-            Other options are passed to :meth:`BaseModel.plot_maps`
-            method.
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        if self.model_static is None:
-            raise ValueError("Static internal field coefficients are missing.")
-
-        defaults = dict(cmap='nio',
-                        deriv=0,
-                        vmax=200,
-                        vmin=-200)
-
-        kwargs = pu.defaultkeys(defaults, kwargs)
-
-        time = self.model_static.breaks[0]
-
-        self.model_static.plot_maps(time, radius, nmax=nmax, **kwargs)
-
-    def synth_coeffs_gsm(self, time, *, nmax=None, source=None):
-        """
-        Compute the spherical harmonic coefficients of the far-magnetospheric
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in days.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'external', 'internal'}, optional
-            Choose source either external or internal (default is 'external').
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Spherical harmonic coefficients of the far-magnetospheric magnetic
-            field with respect to geographic coordinates (GEO).
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_gsm(0.0)
-        array([11.63982782, -4.9276483 , -2.36281582,  0.46063709, -0.37934517,
-               -0.18234297,  0.06281656,  0.07757099])
-
-        """
-
-        if self.coeffs_gsm is None:
-            raise ValueError("External GSM field coefficients are missing.")
-
-        # handle optional argument: nmax
-        if nmax is None:
-            nmax = self.n_gsm
-        elif nmax > self.n_gsm:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.n_gsm))
-            nmax = self.n_gsm
-
-        if source is None:
-            source = 'external'
-
-        # ensure ndarray input
-        time = np.asarray(time, dtype=float)
-
-        # use static part to define modelled period
-        start, end = self._period
-
-        if np.amin(time) < start or np.amax(time) > end:
-            warnings.warn(
-                'Requested coefficients are outside of the '
-                f'model period from {start} to {end}. Doing linear '
-                'extrapolation of the coefficients in the GSM reference '
-                'frame.')
-
-        # build rotation matrix from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.GSM_spectrum'])
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            "GSM rotation coefficients not compatible with the chosen dipole."
-
-        if source == 'external':
-            # unpack file: oscillations per day, complex spectrum
-            frequency = frequency_spectrum['frequency']
-            spectrum = frequency_spectrum['spectrum']
-            scaled = frequency_spectrum['scaled']
-
-            # build rotation matrix for external field coefficients GSM -> GEO
-            rotate_gauss = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
-
-            # rotate external GSM coefficients to GEO reference
-            coeffs = np.matmul(rotate_gauss, self.coeffs_gsm)
-
-        elif source == 'internal':
-            # unpack file: oscillations per day, complex spectrum
-            frequency_ind = frequency_spectrum['frequency_ind']
-            spectrum_ind = frequency_spectrum['spectrum_ind']
-            scaled = frequency_spectrum['scaled']
-
-            # build rotation matrix for external field coefficients GSM -> GEO
-            rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency_ind, spectrum_ind, scaled=scaled)
-
-            # rotate internal GSM coefficients to GEO reference
-            coeffs = np.matmul(rotate_gauss_ind, self.coeffs_gsm)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''external'', ''internal''}.')
-
-        return coeffs[..., :nmax*(nmax+2)]
-
-    def synth_values_gsm(self, time, radius, theta, phi, *, nmax=None,
-                         source=None, grid=None):
-        """
-        Compute the vector components of the far-magnetospheric magnetic
-        field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        radius : float or ndarray, shape (...)
-            Array containing the radius in kilometers.
-        theta : float or ndarray, shape (...)
-            Array containing the colatitude in degrees
-            :math:`[0^\\circ,180^\\circ]`.
-        phi : float or ndarray, shape (...)
-            Array containing the longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            both added (default to 'all').
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid,
-            which is created from ``theta`` and ``phi`` as their outer product
-            (defaults to ``False``).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-        >>> Br, Bt, Bp = model.synth_values_gsm(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-8.18751916, -8.25661729])
-
-        """
-
-        source = 'all' if source is None else source
-        grid = False if grid is None else grid
-
-        if source == 'all':
-            coeffs_ext = self.synth_coeffs_gsm(time, nmax=nmax,
-                                               source='external')
-            coeffs_int = self.synth_coeffs_gsm(time, nmax=nmax,
-                                               source='internal')
-
-            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
-                coeffs_ext, radius, theta, phi, source='external', grid=grid)
-            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
-                coeffs_int, radius, theta, phi, source='internal', grid=grid)
-
-            B_radius = B_radius_ext + B_radius_int
-            B_theta = B_theta_ext + B_theta_int
-            B_phi = B_phi_ext + B_phi_int
-
-        elif source in ['external', 'internal']:
-            coeffs = self.synth_coeffs_gsm(time, nmax=nmax, source=source)
-            B_radius, B_theta, B_phi = mu.synth_values(
-                coeffs, radius, theta, phi, source=source, grid=grid)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        return B_radius, B_theta, B_phi
-
-    def synth_coeffs_sm(self, time, *, nmax=None, source=None, rc=None):
-        """
-        Compute the spherical harmonic coefficients of the near-magnetospheric
-        magnetic field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (...) or float
-            Array containing the time in days.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'external', 'internal'}, optional
-            Choose source either external or internal (default is 'external').
-        rc : ndarray, shape (...), optional
-            External (internal) part of the RC-index (defaults to linearly
-            interpolating the hourly values given by the built-in RC-index
-            file). Use the external part of the RC-index for
-            ``source='external'`` (default) and the internal part for
-            ``source='internal'``. See also the notes section below for more
-            information on the RC-index file.
-
-        Returns
-        -------
-        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
-            Spherical harmonic coefficients of the near-magnetospheric magnetic
-            field with respect to geographic coordinates (GEO).
-
-        Notes
-        -----
-        The computation of the near-magnetospheric field coefficients requires
-        the RC-index. If the values of the RC-index are not supplied
-        directly via the ``rc`` input argument, a built-in RC-index file is
-        loaded. This file goes with a specific version of the CHAOS model,
-        which can be inspected by running
-        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
-        session. It is recommended to use this version of the CHAOS model
-        together with the built-in RC-index.
-
-        For the latest CHAOS model, if necessary, a suitable RC-index file can
-        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
-        RC-index file by either providing interpolated values from the
-        downloaded file via the ``rc`` input argument, or by replacing
-        the path in ChaosMagPy's configuration dictionary
-        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
-        downloaded file (for more details, see Sect.
-        :ref:`sec-configuration-change-rc-index-file`).
-
-        See Also
-        --------
-        CHAOS.synth_values_sm
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> model.synth_coeffs_sm(0.)
-        array([53.20309271,  3.79138724, -8.59458138, -0.62818711,  1.45506171,
-               -0.57977672, -0.31660638, -0.43888236])
-
-        """
-
-        if self.coeffs_sm is None:
-            raise ValueError("External SM field coefficients are missing.")
-
-        # handle optional argument: nmax
-        if nmax is None:
-            nmax = self.n_sm
-        elif nmax > self.n_sm:
-            warnings.warn(
-                'Supplied nmax = {0} is incompatible with number of model '
-                'coefficients. Using nmax = {1} instead.'.format(
-                    nmax, self.n_sm))
-            nmax = self.n_sm
-
-        if source is None:
-            source = 'external'
-
-        # find smallest overlapping time period for breaks_delta
-        start = np.amax([self.breaks_delta['q10'][0],
-                         self.breaks_delta['q11'][0],
-                         self.breaks_delta['s11'][0]])
-        end = np.amin([self.breaks_delta['q10'][-1],
-                       self.breaks_delta['q11'][-1],
-                       self.breaks_delta['s11'][-1]])
-
-        # ensure ndarray input
-        time = np.asarray(time, dtype=float)
-
-        if np.amin(time) < start or np.amax(time) > end:
-            warnings.warn(
-                'Requested coefficients are outside of the '
-                f'model period from {start} to {end}. Doing linear '
-                'extrapolation of the coefficients in the SM reference frame.')
-
-        # load the Fourier spectrum of the coordinate transformation from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.SM_spectrum'])
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            ("Coefficients for the SM coordinate transformation are not " +
-             "compatible with the chosen dipole.")
-
-        if rc is None:
-
-            default = config_utils.basicConfig.defaults['file.RC_index'][0]
-            file = config_utils.basicConfig['file.RC_index']
-
-            if file == default:
-                warnings.warn(
-                    'ChaosMagPy is loading the built-in '
-                    'RC-index file recommended for '
-                    f'CHAOS-{config_utils.basicConfig["params.CHAOS_version"]}'
-                    '. If this is not the CHAOS model version that is being '
-                    'used here, consider changing the model and/or the '
-                    'built-in RC-index file '
-                    '(see https://chaosmagpy.readthedocs.io/en/'
-                    'master/configuration.html#change-rc-index-file '
-                    'on how to change the built-in file).'
-                )
-
-            # load RC-index file: first hdf5 then dat-file format
-            try:
-                with h5py.File(file, 'r') as f_RC:
-
-                    # create linear interpolant of the RC-index
-                    RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
-                                      kind='linear', bounds_error=False)
-
-            except OSError:
-                f_RC = du.load_RC_datfile(file)
-
-                # create linear interpolant of the RC-index
-                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
-                                  kind='linear', bounds_error=False)
-
-            # check RC bounds here to print specific error message
-            rc_below, rc_above = RC._check_bounds(time)
-
-            if rc_below.any() or rc_above.any():
-                raise ValueError("Requested coefficients are outside of the "
-                                 "period covered by the built-in RC-index "
-                                 "file. Either supply values of the RC-index "
-                                 "directly via the ``rc`` input argument or "
-                                 "provide the path to an extended RC-index "
-                                 "file by updating the path in "
-                                 "chaosmagpy.basicParams['file.RC_index'] "
-                                 "(see https://chaosmagpy.readthedocs.io/en/"
-                                 "master/configuration.html#change-rc-"
-                                 "index-file for details).")
-
-            rc = RC(time)  # interpolate RC-index
-
-        else:
-            rc = np.asarray(rc, dtype=float)  # use supplied index values
-
-        # use piecewise polynomials to evaluate baseline correction in bins
-        delta_q10 = sip.PPoly.construct_fast(
-            self.coeffs_delta['q10'].astype(float),
-            self.breaks_delta['q10'].astype(float), extrapolate=True)
-
-        delta_q11 = sip.PPoly.construct_fast(
-            self.coeffs_delta['q11'].astype(float),
-            self.breaks_delta['q11'].astype(float), extrapolate=True)
-
-        delta_s11 = sip.PPoly.construct_fast(
-            self.coeffs_delta['s11'].astype(float),
-            self.breaks_delta['s11'].astype(float), extrapolate=True)
-
-        # unpack file: oscillations per day, complex spectrum
-        frequency = frequency_spectrum['frequency']
-        spectrum = frequency_spectrum['spectrum']
-        scaled = frequency_spectrum['scaled']
-
-        # build rotation matrix for external field coefficients SM -> GEO
-        rotate_gauss = cu.synth_rotate_gauss(
-            time, frequency, spectrum, scaled=scaled)
-
-        if source == 'external':
-            coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
-
-            coeffs_sm[..., 0] = rc*self.coeffs_sm[0] + delta_q10(time)
-            coeffs_sm[..., 1] = rc*self.coeffs_sm[1] + delta_q11(time)
-            coeffs_sm[..., 2] = rc*self.coeffs_sm[2] + delta_s11(time)
-            coeffs_sm[..., 3:] = self.coeffs_sm[3:]
-
-            # rotate external SM coefficients to GEO reference
-            coeffs = np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
-
-        elif source == 'internal':
-            # unpack file: oscillations per day, complex spectrum
-            frequency = frequency_spectrum['frequency_ind']
-            spectrum = frequency_spectrum['spectrum_ind']
-
-            # build rotation matrix for induced coefficients SM -> GEO
-            rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
-
-            # take degree 1 matrix elements of unmodified rotation matrix
-            # since induction effect will be accounted for by RC_i
-            rotate_gauss = rotate_gauss[..., :3, :3]
-
-            coeffs_sm = np.empty(time.shape + (3,))
-
-            coeffs_sm[..., 0] = rc*self.coeffs_sm[0]
-            coeffs_sm[..., 1] = rc*self.coeffs_sm[1]
-            coeffs_sm[..., 2] = rc*self.coeffs_sm[2]
-
-            coeffs_sm_ind = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
-
-            coeffs_sm_ind[..., 0] = delta_q10(time)
-            coeffs_sm_ind[..., 1] = delta_q11(time)
-            coeffs_sm_ind[..., 2] = delta_s11(time)
-            coeffs_sm_ind[..., 3:] = self.coeffs_sm[3:]
-
-            # rotate internal SM coefficients to GEO reference
-            coeffs = np.einsum('...ij,...j', rotate_gauss_ind, coeffs_sm_ind)
-            coeffs[..., :3] += np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use one of {"external", "internal"}.')
-
-        return coeffs[..., :nmax*(nmax+2)]
-
-    def synth_values_sm(self, time, radius, theta, phi, *,
-                        rc_e=None, rc_i=None, nmax=None, source=None,
-                        grid=None):
-        """
-        Compute the vector components of the near-magnetospheric magnetic
-        field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        radius : float or ndarray, shape (...)
-            Array containing the radius in kilometers.
-        theta : float or ndarray, shape (...)
-            Array containing the colatitude in degrees
-            :math:`[0^\\circ,180^\\circ]`.
-        phi : float or ndarray, shape (...)
-            Array containing the longitude in degrees.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            both added (default to 'all').
-        grid : bool, optional
-            If ``True``, field components are computed on a regular grid,
-            which is created from ``theta`` and ``phi`` as their outer product
-            (defaults to ``False``).
-        rc_e : ndarray, shape (...), optional
-            External part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-        rc_i : ndarray, shape (...), optional
-            Internal part of the RC-index (defaults to linearly interpolating
-            the hourly values given by the built-in RC-index file).
-
-        Returns
-        -------
-        B_radius, B_theta, B_phi : ndarray, shape (...)
-            Radial, colatitude and azimuthal field components.
-
-        Notes
-        -----
-        The computation of the near-magnetospheric field coefficients requires
-        the RC-index. If the values of the RC-index are not supplied
-        directly via the ``rc`` input argument, a built-in RC-index file is
-        loaded. This file goes with a specific version of the CHAOS model,
-        which can be inspected by running
-        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
-        session. It is recommended to use this version of the CHAOS model
-        together with the built-in RC-index.
-
-        For the latest CHAOS model, if necessary, a suitable RC-index file can
-        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
-        RC-index file by either providing interpolated values from the
-        downloaded file via the ``rc`` input argument, or by replacing
-        the path in ChaosMagPy's configuration dictionary
-        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
-        downloaded file (for more details, see Sect.
-        :ref:`sec-configuration-change-rc-index-file`).
-
-        See Also
-        --------
-        CHAOS.synth_values_sm
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([0., 10.])
-        >>> Br, Bt, Bp = model.synth_values_sm(time, 6371.2, 45., 0.)
-        >>> Br
-        array([-18.85890361, -13.99893523])
-
-        """
-
-        source = 'all' if source is None else source
-        grid = False if grid is None else grid
-
-        if source == 'all':
-
-            coeffs_ext = self.synth_coeffs_sm(
-                time, nmax=nmax, source='external', rc=rc_e)
-            coeffs_int = self.synth_coeffs_sm(
-                time, nmax=nmax, source='internal', rc=rc_i)
-
-            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
-                coeffs_ext, radius, theta, phi, source='external', grid=grid)
-            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
-                coeffs_int, radius, theta, phi, source='internal', grid=grid)
-
-            B_radius = B_radius_ext + B_radius_int
-            B_theta = B_theta_ext + B_theta_int
-            B_phi = B_phi_ext + B_phi_int
-
-        elif source in ['external', 'internal']:
-
-            # set the RC-index
-            rc = rc_e if source == 'external' else rc_i
-
-            coeffs = self.synth_coeffs_sm(
-                time, nmax=nmax, source=source, rc=rc)
-            B_radius, B_theta, B_phi = mu.synth_values(
-                coeffs, radius, theta, phi, source=source, grid=grid)
-
-        else:
-            raise ValueError(f'Unknown source "{source}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        return B_radius, B_theta, B_phi
-
-    def plot_maps_external(self, time, radius, *, nmax=None, reference=None,
-                           source=None):
-        """
-        Plot global map of the external field from the CHAOS model.
-
-        Parameters
-        ----------
-        time : ndarray, shape (), (1,) or float
-            Time given as MJD2000 (modified Julian date).
-        radius : ndarray, shape (), (1,) or float
-            Radius in kilometers.
-        nmax : int, positive, optional
-            Maximum degree harmonic expansion (default is given by the model
-            coefficients, but can also be smaller, if specified).
-        reference : {'all', 'GSM', 'SM'}, optional
-            Choose contribution either from GSM, SM or the sum of both
-            (default).
-        source : {'all', 'external', 'internal'}, optional
-            Choose source to be external (inducing), internal (induced) or
-            the sum of both (default).
-
-        Notes
-        -----
-        For more customization get access to the figure and axes handles
-        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-        right after the call to this plotting method.
-
-        """
-
-        reference = 'all' if reference is None else reference.lower()
-        source = 'all' if source is None else source.lower()
-
-        time = np.array(time, dtype=float)
-        radius = np.array(radius, dtype=float)
-        theta = np.linspace(1, 179, num=320)
-        phi = np.linspace(-180, 180, num=721)
-
-        # compute GSM contribution: external, internal
-        if reference == 'all' or reference == 'gsm':
-
-            # compute magnetic field components
-            B_radius_gsm, B_theta_gsm, B_phi_gsm = self.synth_values_gsm(
-                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
-
-        # compute SM contribution: external, internal
-        if reference == 'all' or reference == 'sm':
-
-            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(
-                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
-
-        if reference == 'all':
-            B_radius = B_radius_gsm + B_radius_sm
-            B_theta = B_theta_gsm + B_theta_sm
-            B_phi = B_phi_gsm + B_phi_sm
-        elif reference == 'gsm':
-            B_radius = B_radius_gsm
-            B_theta = B_theta_gsm
-            B_phi = B_phi_gsm
-        elif reference == 'sm':
-            B_radius = B_radius_sm
-            B_theta = B_theta_sm
-            B_phi = B_phi_sm
-        else:
-            raise ValueError(f'Unknown reference "{reference}". '
-                             'Use {''all'', ''external'', ''internal''}.')
-
-        units = du.gauss_units(0)
-
-        if reference == 'all':
-            titles = [f'$B_r$ ({source} sources)',
-                      f'$B_\\theta$ ({source} sources)',
-                      f'$B_\\phi$ ({source} sources)']
-        else:
-            titles = [f'$B_r$ ({reference.upper()} {source} sources)',
-                      f'$B_\\theta$ ({reference.upper()} {source} sources)',
-                      f'$B_\\phi$ ({reference.upper()} {source} sources)']
-
-        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi,
-                     titles=titles, label=units)
-
-    def synth_euler_angles(self, time, satellite, *, dim=None, deriv=None,
-                           extrapolate=None):
-        """
-        Extract Euler angles for specified satellite.
-
-        Parameters
-        ----------
-        time : float or ndarray, shape (...)
-            Time given as MJD2000 (modified Julian date).
-        satellite : str
-            Satellite from which to get the euler angles.
-        dim : int, positive, optional
-            Maximum dimension (default is 3, for the three angles alpha, beta,
-            gamma).
-        deriv : int, positive, optional
-            Derivative in time (default is 0).
-        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
-            Extrapolate to times outside of the model bounds. Defaults to
-            ``'linear'``.
-
-        Returns
-        -------
-        angles : ndarray, shape (..., 3)
-            Euler angles alpha, beta and gamma in degrees, stored in trailing
-            dimension.
-
-        Examples
-        --------
-        >>> import chaosmagpy as cp
-        >>> import numpy as np
-        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> time = np.array([500., 600.])
-        >>> model.meta['satellites']  # check satellite names
-        ('oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c')
-
-        >>> model.synth_euler_angles(time, 'champ')
-        array([[-0.05521985, -1.5763316 ,  0.48787601],
-               [-0.05440427, -1.57966925,  0.49043057]])
-
-        """
-
-        if satellite not in self.model_euler:
-            string = '", "'.join([*self.model_euler.keys()])
-            raise ValueError(
-                        f'Unknown satellite "{satellite}". Use '
-                        f'one of {{"{string}"}}.')
-
-        coeffs = self.model_euler[satellite].synth_coeffs(
-            time, dim=dim, deriv=deriv, extrapolate=extrapolate)
-
-        # add Euler prerotation angles if available in meta
-        pre = self.model_euler[satellite].meta['Euler_prerotation']
-        if pre is not None:
-            warnings.warn(f'Euler pre-rotation has not been applied. '
-                          f'The pre-rotation angles are {pre}.')
-
-        return coeffs
-
-    def save_shcfile(self, filepath, *, model=None, leap_year=None):
-        """
-        Save spherical harmonic coefficients to a file in `shc`-format.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of output file `*.shc`.
-        model : {'tdep', 'static'}, optional
-            Choose part of the model to save (default is 'tdep').
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-
-        """
-
-        model = 'tdep' if model is None else model
-
-        if model not in ('tdep', 'static'):
-            raise ValueError(f'Unknown model "{model}". Use {{tdep, static}}.')
-
-        leap_year = False if leap_year is None else leap_year
-
-        if model == 'tdep':
-
-            if self.model_tdep is None:
-                raise ValueError("Time-dependent internal field coefficients "
-                                 "are missing.")
-
-            nmin = 1
-            nmax = self.model_tdep.nmax
-            order = self.model_tdep.order
-            pieces = self.model_tdep.breaks.size - 1
-            step = max(order - 1, 1)
-            np = pieces if order == 1 else (pieces * step + 1)
-
-            # create header lines
-            header = textwrap.dedent(f"""\
-                # {self.name}
-                # Spherical harmonic coefficients of the time-dependent
-                # internal field from degree {nmin} to {nmax}. Coefficients
-                # (units of nT) are given at {np} points in time and were
-                # extracted from a {order}-order piecewise polynomial. The
-                # break points are every {step} step(s) of the time sequence.
-                """)
-
-            self.model_tdep.to_shc(
-                filepath,
-                leap_year=leap_year,
-                nmin=nmin,
-                header=header
-            )
-
-        # output static field model coefficients
-        if model == 'static':
-
-            if self.model_static is None:
-                raise ValueError("Static internal field coefficients "
-                                 "are missing.")
-
-            nmin = (1 if self.model_tdep is None
-                    else self.model_tdep.nmax + 1)
-            nmax = self.model_static.nmax
-            order = 1
-
-            # create additonal header lines
-            header = textwrap.dedent(f"""\
-                # {self.name}
-                # Spherical harmonic coefficients (units of nT) of the static
-                # internal field model from degree {nmin} to {nmax}. Given at
-                # the first break point.
-                """)
-
-            self.model_static.to_shc(
-                filepath,
-                leap_year=leap_year,
-                nmin=nmin,
-                header=header
-            )
-
-    def save_matfile(self, filepath):
-        """
-        Save CHAOS model to a MAT-file.
-
-        The model must be fully specified as is the case if originally loaded
-        from a MAT-file.
-
-        Parameters
-        ----------
-        filepath : str
-            Path and name of MAT-file that is to be saved.
-
-        """
-
-        # write time-dependent internal field model to matfile
-        if self.model_tdep:
-            self.model_tdep.save_matfile(filepath)
-
-        if self.coeffs_delta:
-            # write time-dependent external field model to matfile
-            q10 = self.coeffs_delta['q10'].reshape((-1, 1))
-            q11 = np.ravel(self.coeffs_delta['q11'])
-            s11 = np.ravel(self.coeffs_delta['s11'])
-            qs11 = np.stack((q11, s11), axis=-1)
-
-            t_break_q10 = self.breaks_delta['q10'].reshape(
-                (-1, 1)).astype(float)
-            t_break_q11 = self.breaks_delta['q11'].reshape(
-                (-1, 1)).astype(float)
-
-            m_sm = np.array([np.mean(q10), np.mean(q11), np.mean(s11)])
-            m_sm = np.append(m_sm, self.coeffs_sm[3:]).reshape((-1, 1))
-
-            m_Dst = self.coeffs_sm[:3].reshape((3, 1))
-
-            # process gsm coefficients
-            m_gsm = self.coeffs_gsm[[0, 3]].reshape((2, 1))
-
-            model_ext = dict(
-                t_break_q10=t_break_q10,
-                q10=q10,
-                t_break_qs11=t_break_q11,
-                qs11=qs11,
-                m_sm=m_sm,
-                m_gsm=m_gsm,
-                m_Dst=m_Dst
-            )
-
-            hdf.write(model_ext, path='/model_ext', filename=filepath,
-                      matlab_compatible=True)
-
-        if self.model_euler:
-            # write Euler angles to matfile for each satellite
-            satellites = tuple([*self.model_euler.keys()])
-
-            t_break_Euler = []  # list of Euler angle breaks for satellites
-            alpha = []  # list of alpha for each satellite
-            beta = []  # list of beta for each satellite
-            gamma = []  # list of gamma for each satellite
-            for satellite in satellites:
-
-                # reduce breaks if start and end are equal
-                breaks = self.model_euler[satellite].breaks
-                if breaks[0] == breaks[-1]:
-                    breaks = breaks[0]
-
-                t_break_Euler.append(breaks.reshape((-1, 1)).astype(float))
-                alpha.append(self.model_euler[satellite].coeffs[
-                    0, :, 0].reshape((-1, 1)).astype(float))
-                beta.append(self.model_euler[satellite].coeffs[
-                    0, :, 1].reshape((-1, 1)).astype(float))
-                gamma.append(self.model_euler[satellite].coeffs[
-                    0, :, 2].reshape((-1, 1)).astype(float))
-
-            # cell array with one element for each satellite
-            def to_cell(arrays):
-                cell = np.empty((len(arrays),), dtype=object)
-                for k, array in enumerate(arrays):
-                    cell[k] = array
-                return cell
-
-            hdf.write(to_cell(t_break_Euler),
-                      path='/model_Euler/t_break_Euler/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(to_cell(alpha),
-                      path='/model_Euler/alpha/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(to_cell(beta),
-                      path='/model_Euler/beta/',
-                      filename=filepath, matlab_compatible=True)
-            hdf.write(to_cell(gamma),
-                      path='/model_Euler/gamma/',
-                      filename=filepath, matlab_compatible=True)
-
-        if self.model_cal:
-            # write calibration parameters to matfile for each satellite
-            cal = []
-            for satellite, model in self.model_cal.items():
-                cal.append(model.to_ppdict())
-
-            hdf.write(np.array(cal, dtype=object),
-                      path='/pp_CAL/',
-                      filename=filepath, matlab_compatible=True)
-
-        if self.model_static:
-            # write static internal field model to matfile
-            g = np.ravel(self.model_static.coeffs).reshape((-1, 1))
-
-            hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
-
-        if self.meta:
-            hdf.write(self.meta['params'], path='/params', filename=filepath,
-                      matlab_compatible=True)
-
-        print('CHAOS saved to {}.'.format(
-            os.path.join(os.getcwd(), filepath)))
-
-    @classmethod
-    def from_mat(self, filepath, name=None, satellites=None):
-        """
-        Alternative constructor for creating a :class:`CHAOS` class instance.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to MAT-file containing the CHAOS model.
-        name : str, optional
-            User defined name of the model. Defaults to the filename without
-            the file extension.
-        satellites : list of strings, optional
-            List of satellite names whose Euler angles are stored in the
-            MAT-file. This is needed for correct referencing as this
-            information is not given in the standard CHAOS MAT-file format
-            (defaults to ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
-            'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
-
-        Returns
-        -------
-        model : :class:`CHAOS` instance
-            Fully initialized model.
-
-        Examples
-        --------
-        Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-        directory like this:
-
-        >>> from chaosmagpy import CHAOS
-        >>> model = CHAOS.from_mat('CHAOS-6-x7.mat')
-        >>> print(model)
-
-        See Also
-        --------
-        load_CHAOS_matfile
-
-        """
-
-        return load_CHAOS_matfile(filepath, name=name, satellites=satellites)
-
-    @classmethod
-    def from_shc(self, filepath, *, name=None, leap_year=None):
-        """
-        Alternative constructor for creating a :class:`CHAOS` class instance.
-
-        Parameters
-        ----------
-        filepath : str
-            Path to SHC-file.
-        name : str, optional
-            User defined name of the model. Defaults to ``'CHAOS-<version>'``,
-            where <version> is the default in
-            ``basicConfig['params.version']``.
-        leap_year : {False, True}, optional
-            Take leap year in time conversion into account. By default set to
-            ``False``, so that a conversion factor of 365.25 days per year is
-            used.
-
-        Returns
-        -------
-        model : :class:`CHAOS` instance
-            Class instance with either the time-dependent or static internal
-            part initialized.
-
-        Examples
-        --------
-        Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
-        working directory, containing the coefficients of time-dependent
-        internal part of the CHAOS-6-x7 model.
-
-        >>> import chaosmagpy as cp
-        >>> model = cp.CHAOS.from_shc('CHAOS-6-x7_tdep.shc')
-        >>> print(model)
-
-        See Also
-        --------
-        load_CHAOS_shcfile
-
-        """
-
-        leap_year = False if leap_year is None else leap_year
-
-        return load_CHAOS_shcfile(filepath, name=name, leap_year=leap_year)
-
-
-def load_CHAOS_matfile(filepath, name=None, satellites=None):
-    """
-    Load CHAOS model from MAT-file.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to MAT-file containing the CHAOS model.
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-    satellites : list of strings, optional
-        List of satellite names whose Euler angles are stored in the MAT-file.
-        This is needed for correct referencing as this information is not
-        given in the standard CHAOS MAT-file format (defaults to
-        ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
-        'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
-
-    Returns
-    -------
-    model : :class:`CHAOS` instance
-        Fully initialized model.
-
-    Examples
-    --------
-    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
-    directory like this:
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
-    >>> print(model)
-
-    Compute the Gauss coefficients of the time-dependent internal field on
-    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
-    date:
-
-    >>> cp.data_utils.mjd2000(2018, 1, 1)
-    6575.0
-
-    Now, compute the Gauss coefficients:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575.)
-    >>> coeffs
-    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
-
-    Compute only the dipolar part by restricting the spherical harmonic degree
-    with the help of the ``nmax`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
-    >>> coeffs
-    array([-29417.21325337,  -1466.70696158,   4705.96297947])
-
-    Compute the first time derivative of the internal Gauss coefficients in
-    nT/yr with the help of the ``deriv`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
-    >>> coeffs
-    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
-
-    Compute values of the time-dependent internal magnetic field on
-    January 1, 2018 at 0:00 UTC at
-    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
-    (:math:`r=6371.2` km):
-
-    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
-6575., 6371.2, 90., 0.)
-    >>> B_theta
-    array(-27642.31732596)
-
-    See Also
-    --------
-    CHAOS, load_CHAOS_shcfile
-
-    """
-
-    filepath = str(filepath)
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    # define satellite names
-    if satellites is None:
-        satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
-                      'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
-    else:
-        satellites = list(satellites)  # do not modify the input list
-
-    mat_contents = du.load_matfile(filepath)
-
-    pp = mat_contents['pp']
-
-    order = int(pp['order'])
-    pieces = int(pp['pieces'])
-    dim = int(pp['dim'])
-    breaks = pp['breaks']
-    coefs = pp['coefs']
-
-    # reshaping coeffs_tdep from 2-D to 3-D: (order, pieces, coefficients)
-    coeffs_tdep = coefs.transpose().reshape((order, pieces, dim))
-
-    # load the static internal field model
-    try:
-        coeffs_static = mat_contents['g'].reshape((1, 1, -1))
-
-    except KeyError as err:
-        warnings.warn(f'Missing static internal field coefficients: {err}')
-        coeffs_static = None
-
-    # load the external field model
-    try:
-        model_ext = mat_contents['model_ext']
-
-    except KeyError as err:
-        warnings.warn(f'Missing external field coefficients: {err}')
-        coeffs_delta = None
-        breaks_delta = None
-        coeffs_gsm = None
-        coeffs_sm = None
-
-    else:
-        # external field (SM): n=1, 2 (n=1 are sm offset time averages!)
-        coeffs_sm = np.copy(model_ext['m_sm'])
-        coeffs_sm[:3] = model_ext['m_Dst']  # replace with m_Dst
-
-        # external field (GSM): n=1, 2
-        n_gsm = int(2)
-        coeffs_gsm = np.zeros((n_gsm*(n_gsm+2),))  # correct number of coeffs
-        # only m=0 are non-zero
-        coeffs_gsm[[0, 3]] = model_ext['m_gsm']
-
-        # coefficients and breaks of external SM offsets for q10, q11, s11
-        breaks_delta = dict()
-        breaks_delta['q10'] = model_ext['t_break_q10']
-        breaks_delta['q11'] = model_ext['t_break_qs11']
-        breaks_delta['s11'] = model_ext['t_break_qs11']
-
-        # reshape to comply with scipy PPoly coefficients
-        coeffs_delta = dict()
-        coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11'].reshape((-1, 2))
-        coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
-        coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
-
-    # load euler angles
-    try:
-        model_euler = mat_contents['model_Euler']
-
-    except KeyError as err:
-        warnings.warn(f'Missing Euler angles: {err}')
-        coeffs_euler = None
-        breaks_euler = None
-
-    else:
-        # cell array of a single satellite has been reduced to its element
-        def from_cell(cell):
-            return cell if np.asarray(cell).dtype == object else [cell]
-
-        # append generic satellite name if more data available or reduce
-        t_break_Euler = from_cell(model_euler['t_break_Euler'])
-        n = len(t_break_Euler)
-        m = len(satellites)
-
-        if n < m:
-            satellites = satellites[:n]
-        elif n > m:
-            for counter in range(m+1, n+1):
-                satellites.append(f'satellite_{counter}')
-
-        # coefficients and breaks of euler angles
-        breaks_euler = dict()
-        for num, satellite in enumerate(satellites):
-            breaks_euler[satellite] = t_break_Euler[num].squeeze()
-
-        coeffs_euler = dict()
-        for num, satellite in enumerate(satellites):
-
-            angles = [np.reshape(from_cell(model_euler[angle])[num], (-1, 1))
-                      for angle in ['alpha', 'beta', 'gamma']]
-            euler = np.concatenate(angles, axis=-1).astype(float)
-
-            # first: order, second: number of intervals, third: 3 angles
-            coeffs_euler[satellite] = np.expand_dims(euler, axis=0)
-
-    # load calibration parameters
-    try:
-        model_cal = mat_contents['pp_CAL']
-
-    except KeyError as err:
-        warnings.warn(f'Missing calibration parameters: {err}')
-        breaks_cal = None
-        coeffs_cal = None
-
-    else:
-        # only support of single satellite
-        breaks_cal = {'cryosat-2_1': model_cal['breaks']}
-        coeffs_cal = {'cryosat-2_1': model_cal['coefs'].reshape((1, -1, 9))}
-
-    # load additional parameters
-    try:
-        params = mat_contents['params']
-        prerotation = params['Euler_prerotation']
-        if np.shape(prerotation) == (3,):  # angles of a single satellite
-            prerotation = np.reshape(prerotation, (1, 3))
-        dict_params = {'Euler_prerotation': prerotation}
-
-    except KeyError as err:
-        warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-        dict_params = {'Euler_prerotation': None}
-
-    meta = dict(params=dict_params,
-                satellites=tuple(satellites))
-
-    model = CHAOS(breaks=breaks,
-                  order=order,
-                  coeffs_tdep=coeffs_tdep,
-                  coeffs_static=coeffs_static,
-                  coeffs_sm=coeffs_sm,
-                  coeffs_gsm=coeffs_gsm,
-                  breaks_delta=breaks_delta,
-                  coeffs_delta=coeffs_delta,
-                  breaks_euler=breaks_euler,
-                  coeffs_euler=coeffs_euler,
-                  breaks_cal=breaks_cal,
-                  coeffs_cal=coeffs_cal,
-                  name=name,
-                  meta=meta)
-
-    return model
-
-
-def load_CHAOS_shcfile(filepath, name=None, leap_year=None):
-    """
-    Load CHAOS model from SHC-file.
-
-    The file should contain the coefficients of the time-dependent or static
-    internal part of the CHAOS model. In case of the time-dependent part, a
-    reconstruction of the piecewise polynomial is performed.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to SHC-file.
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-    leap_year : {False, True}, optional
-        Take leap year in time conversion into account. By default set to
-        ``False``, so that a conversion factor of 365.25 days per year is
-        used.
-
-    Returns
-    -------
-    model : :class:`CHAOS` instance
-        Class instance with either the time-dependent or static internal part
-        initialized.
-
-    Examples
-    --------
-    Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
-    working directory, containing the coefficients of time-dependent internal
-    part of the CHAOS-6-x7 model.
-
-    >>> import chaosmagpy as cp
-    >>> model = cp.load_CHAOS_shcfile('CHAOS-6-x7_tdep.shc')
-    >>> print(model)
-
-    Compute the Gauss coefficients of the time-dependent internal field on
-    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
-    date:
-
-    >>> cp.data_utils.mjd2000(2018, 1, 1)
-    6575.0
-
-    Now, compute the Gauss coefficients:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575.)
-    >>> coeffs
-    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
-
-    Compute only the dipolar part by restricting the spherical harmonic degree
-    with the help of the ``nmax`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
-    >>> coeffs
-    array([-29417.21325337,  -1466.70696158,   4705.96297947])
-
-    Compute the first time derivative of the internal Gauss coefficients in
-    nT/yr with the help of the ``deriv`` keyword argument:
-
-    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
-    >>> coeffs
-    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
-
-    Compute values of the time-dependent internal magnetic field on
-    January 1, 2018 at 0:00 UTC at
-    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
-    (:math:`r=6371.2` km):
-
-    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
-6575., 6371.2, 90., 0.)
-    >>> B_theta
-    array(-27642.31732596)
-
-    See Also
-    --------
-    CHAOS, load_CHAOS_matfile
-
-    """
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    leap_year = False if leap_year is None else bool(leap_year)
-
-    # create dummy BaseModel since there is no entry point to directly modify
-    # CHAOS.model_tdep or CHAOS.model_static at the moment
-    model = BaseModel.from_shc(filepath, name=name, leap_year=leap_year)
-
-    if (model.pieces == 1) and (model.order == 1):  # static in single bin
-
-        return CHAOS(
-            breaks=model.breaks,
-            coeffs_static=model.coeffs,
-            name=model.name
-        )
-
-    else:  # must be time-dependent, incl. piecewise constant
-
-        return CHAOS(
-            breaks=model.breaks,
-            order=model.order,
-            coeffs_tdep=model.coeffs,
-            name=model.name
-        )
-
-
-def load_CovObs_txtfile(filepath, name=None):
-    """
-    Load the ensemble mean of the internal model from the COV-OBS
-    TXT-file in spline format.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to spline-formatted TXT-file (not part of ChaosMagPy).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    For details on the COV-OBS model (COV-OBS.x2), see the original
-    publication:
-
-    Huder, L., Gillet, N., Finlay, C. C., Hammer, M. D. and H. Tchoungui
-    (2020), "COV-OBS.x2: 180 yr of geomagnetic field evolution from
-    ground-based and satellite observations", Earth, Planets and Space.
-
-    Examples
-    --------
-    Load the ensemble mean internal model and plot the degree-1 secular
-    variation. Here, the model parameter file, e.g. "COV-OBS.x2-int", is in
-    the current working directory.
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_CovObs_txtfile('COV-OBS.x2-int')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        # sample model timespan
-        time = np.linspace(1840., 2020., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
-
-        ax.plot(cp.data_utils.timestamp(time), coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('Time (years)')
-        ax.set_ylabel('nT/yr')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.readlines()
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    tmp = np.fromstring(lines[1], sep=' ')  # read parameters and breaks
-
-    nmax = int(tmp[0])
-    order = int(tmp[2])
-    degree = order - 1  # polynomial degree
-
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)
-
-    # add endpoint multiplicity to conform with scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    data = np.fromstring(' '.join(lines[2:]), sep=' ')
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data.reshape(
-        (breaks.size - order, nmax * (nmax + 2)))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_gufm1_txtfile(filepath, name=None):
-    """
-    Load model parameter file of the gufm1 model.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to TXT-file (provided by the modellers).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    For details on the gufm1 model, see the original publication:
-
-    Andrew Jackson, Art R. T. Jonkers and Matthew R. Walker (2000),
-    "Four centuries of geomagnetic secular variation from historical records",
-    Phil. Trans. R. Soc. A.358957–990, http://doi.org/10.1098/rsta.2000.0569
-
-    Examples
-    --------
-    Load the model and plot the degree-1 secular variation. Here, the
-    model parameter file, e.g. "gufm1", is in the current working directory.
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_gufm1_txtfile('gufm1')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        # sample model timespan 7.5 years away from endpoints
-        time = np.linspace(1590., 1990., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('Time (years)')
-        ax.set_ylabel('nT/yr')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.readlines()
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    data = np.fromstring('  '.join(lines[1:]), sep=' ')
-
-    nmax = int(data[0])
-    order = 4  # hard-coded since not really provided in file
-    nbreaks = int(data[1]) + order  # data[1] is number of B-spline functions?
-    degree = order - 1  # polynomial degree
-
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(data[2:(nbreaks + 2)], leap_year=False)
-
-    # add endpoint multiplicity to "trick" scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(
-        (breaks.size - order, nmax * (nmax + 2)))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_CALS7K_txtfile(filepath, name=None):
-    """
-    Load the model parameter file of the CALS7K model.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to TXT-file (available from the modellers).
-    name : str, optional
-        User defined name of the model. Defaults to the filename.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    More information about the model and a list of relevant publications can be
-    found at `<https://igppweb.ucsd.edu/~cathy/Projects/Holocene/CALS7K/>`_.
-    The model coefficients file can be downloaded from
-    `<https://earthref.org/ERDA/413/>`_.
-
-    Examples
-    --------
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_CALS7K_txtfile('CALS7K.2')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        time = np.linspace(-5000., 1950., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('years')
-        ax.set_ylabel('nT')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    with open(filepath, 'r') as f:
-        lines = f.read()  # read everything as a continuous string
-
-    if name is None:
-        # get name with extension
-        name = os.path.basename(filepath)
-
-    # numpy doesn't understand "D" in decimal representation, replace with E
-    data = np.fromstring(lines.replace('D', 'E'), sep=' ', dtype=float)
-
-    # ts = data[0]  # start time
-    # te = data[1]  # end time
-    order = data[2]  # cubic B-splines
-    # discard index 3
-    nmax = int(data[4])  # maximum spherical harmonic degree
-    # discard index 5
-    inspl = int(data[6])  # number of inner B-spline segments
-
-    dim = nmax*(nmax+2)  # number of spherical harmonic coefficients
-    order = 4  # cubic splines
-    degree = order - 1  # polynomial degree
-    nbreaks = inspl + order  # number of breaks
-
-    breaks = data[7:(7+nbreaks)]
-    # convert decimal year to modified Julian date (using 365.25 days/year)
-    breaks = du.dyear_to_mjd(breaks, leap_year=False)
-
-    # add endpoint multiplicity to "trick" scipy's BSpline routine
-    knots = mu.augment_breaks(breaks, order)
-
-    # add zeros at endpoints to match manually extended knots
-    coeffs = np.zeros((knots.size - order, dim))
-
-    # insert actual coefficients, endpoint coefficients are now zero
-    coeffs[degree:-degree, :] = data[(7+nbreaks):].reshape(
-        (breaks.size - order, dim))
-
-    return BaseModel.from_bspline(name, knots, coeffs, order,
-                                  source='internal')
-
-
-def load_IGRF_txtfile(filepath, name=None):
-    """
-    Load the IGRF internal field model from the TXT-file with the
-    piecewise-polynomial coefficients.
-
-    Parameters
-    ----------
-    filepath : str
-        Path to the IGRF TXT-file (not part of ChaosMagPy).
-    name : str, optional
-        User defined name of the model. Defaults to the filename without the
-        file extension.
-
-    Returns
-    -------
-    model : :class:`BaseModel`
-        Class :class:`BaseModel` instance.
-
-    References
-    ----------
-    The latest IGRF coefficients can be downloaded at
-    `<https://www.ncei.noaa.gov/products/international-geomagnetic-reference-field>`_.
-
-    Notes
-    -----
-    The field is linearly extrapolated in the 5-year period at the
-    end of the model time interval (i.e. in the period 2020-2025 for IGRF-13)
-    using the predictive secular variation in the IGRF.
-
-    Examples
-    --------
-
-    .. code-block:: python
-
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-        import numpy as np
-
-        model = cp.load_IGRF_txtfile('irgf13coeffs.txt')  # load model TXT-file
-
-        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
-
-        time = np.linspace(1900., 2020., 1000)  # decimal years
-        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=True)
-
-        coeffs = model.synth_coeffs(mjd, nmax=1)
-
-        ax.plot(time, coeffs)
-        ax.set_title(model.name)
-        ax.set_xlabel('years')
-        ax.set_ylabel('nT')
-
-        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
-
-        plt.tight_layout()
-        plt.show()
-
-    """
-
-    if name is None:
-        # get name without extension
-        name = os.path.splitext(os.path.basename(filepath))[0]
-
-    first_line = True
-    data = np.array([])
-
-    with open(filepath, 'r') as f:
-        for line in f.readlines():
-
-            if line.lstrip().startswith(('#', 'c/s')):
-                continue
-
-            tmp = line.split()  # also splits consecutive whitespaces
-
-            if first_line:  # first non-comment line contains breaks
-                breaks = np.array(tmp[3:-1], dtype=float)
-                breaks = np.append(breaks, breaks[-1] + 5.)
-
-                first_line = False
-
-            else:
-                newline = np.array(tmp[3:], dtype=float)  # strip degree/order
-                data = np.append(data, newline)
-
-    data = np.reshape(data, (-1, breaks.size))
-    data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
-    coeffs = data.T
-
-    order = 2
-    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=True)
-    knots = mu.augment_breaks(breaks_mjd, order)
-
-    model = BaseModel.from_bspline(name, knots, coeffs, order,
-                                   source='internal')
-
-    return model
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.chaos` provides classes and functions to read the CHAOS model and
+other geomagnetic field models.
+
+.. autosummary::
+    :toctree: classes
+    :template: myclass.rst
+
+    Base
+    BaseModel
+    CHAOS
+
+.. autosummary::
+    :toctree: functions
+
+    load_CHAOS_matfile
+    load_CHAOS_shcfile
+    load_CovObs_txtfile
+    load_gufm1_txtfile
+    load_CALS7K_txtfile
+    load_IGRF_txtfile
+
+"""
+
+import numpy as np
+import os
+import warnings
+import scipy.interpolate as sip
+import hdf5storage as hdf
+import h5py
+import textwrap
+import datetime
+from math import factorial
+from timeit import default_timer as timer
+from . import coordinate_utils as cu
+from . import model_utils as mu
+from . import data_utils as du
+from . import plot_utils as pu
+from . import config_utils
+
+
+class Base(object):
+    """
+    Piecewise polynomial base class.
+
+    """
+
+    def __init__(self, name, breaks=None, order=None, coeffs=None, meta=None):
+
+        self.name = str(name)
+
+        # ensure breaks is None or has 2 elements
+        if breaks is not None:
+            breaks = np.asarray(breaks, dtype=float)
+            if breaks.size == 1:
+                breaks = np.append(breaks, breaks)
+
+        self.breaks = breaks
+
+        self.pieces = None if breaks is None else int(breaks.size - 1)
+
+        if coeffs is None:
+            self.coeffs = coeffs
+            self.order = None if order is None else int(order)
+            self.dim = None
+
+        else:
+            coeffs = np.asarray(coeffs, dtype=float)
+
+            if order is None:
+                self.order = coeffs.shape[0]
+            else:
+                self.order = min(int(order), coeffs.shape[0])
+
+            self.coeffs = coeffs[-self.order:]
+            self.dim = coeffs.shape[-1]
+
+        self.meta = meta
+
+    def synth_coeffs(self, time, *, dim=None, deriv=None, extrapolate=None):
+        """
+        Compute the coefficients from the piecewise polynomial representation.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian date.
+        dim : int, positive, optional
+            Truncation value of the number of coefficients (no truncation by
+            default).
+        deriv : int, positive, optional
+            Derivative in time (None defaults to 0).
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the piecewise polynomial bounds.
+            Specify the polynomial degree as string or the order as an integer.
+            Defaults to ``'linear'`` (equiv. to order-2 polynomials).
+
+             +------------+---------------------------------------------------+
+             | Value      | Description                                       |
+             +============+===================================================+
+             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
+             +------------+---------------------------------------------------+
+             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
+             +------------+---------------------------------------------------+
+             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
+             +------------+---------------------------------------------------+
+             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
+             +------------+---------------------------------------------------+
+             | 'spline'   | Use all degree polynomials.                       |
+             +------------+---------------------------------------------------+
+             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
+             +------------+---------------------------------------------------+
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``dim``)
+            Array containing the coefficients.
+
+        """
+
+        if (self.coeffs is None) or (self.coeffs.size == 0):
+            raise ValueError(f'Coefficients of "{self.name}" are missing.')
+
+        # handle optional argument: dim
+        if dim is None:
+            dim = self.dim
+        elif dim > self.dim:
+            warnings.warn(
+                'Supplied dim = {0} is incompatible with number of '
+                'coefficients. Using dim = {1} instead.'.format(
+                    dim, self.dim))
+            dim = self.dim
+
+        if deriv is None:
+            deriv = 0
+
+        if extrapolate is None:
+            extrapolate = 'linear'  # linear extrapolation
+
+        # setting spline interpolation
+        PP = sip.PPoly.construct_fast(
+            self.coeffs[..., :dim].astype(float),
+            self.breaks.astype(float), extrapolate=True)
+
+        start = self.breaks[0]
+        end = self.breaks[-1]
+
+        if (np.amin(time) < start) or (np.amax(time) > end):
+
+            dkey = {
+                'linear': 2,
+                'quadratic': 3,
+                'cubic': 4,
+                'constant': 1,
+                'spline': self.order,
+                'off': 0
+            }
+
+            # convert extrapolation input to integer
+            if isinstance(extrapolate, bool):
+                key = 2 if extrapolate else 0
+
+            elif isinstance(extrapolate, str):
+                try:
+                    key = dkey[extrapolate]
+                except KeyError:
+                    string = '", "'.join([str(key) for key in dkey.keys()])
+                    raise ValueError(
+                        f'Unknown extrapolation method "{extrapolate}". Use '
+                        f'one of {{"{string}"}}.')
+
+            else:
+                key = int(extrapolate)  # ensure integer (if float, etc)
+
+            key = min(key, self.order)  # extrapolation at most equal to spline
+
+            if key == 0:
+                message = 'no'
+
+            else:
+                rev_dkey = {v: k for k, v in dkey.items()}
+                try:
+                    message = rev_dkey[key]
+                except KeyError:
+                    message = f'order-{key} spline'
+
+            warnings.warn("Requested coefficients are "
+                          "outside of the model time period from "
+                          f"{start} to {end} Modified Julian Date 2000. "
+                          f"Doing {message} extrapolation of the "
+                          "coefficient time series.")
+
+            if key > 0:
+                for x in [start, end]:  # left and right
+                    bin = np.zeros((self.order, 1, dim))
+                    for k in range(key):
+                        bin[-1-k] = PP(x, nu=k) / factorial(k)
+                    PP.extend(bin, np.array([x]))
+                # end point itself belongs to the last piece of the model
+                PP.x[-2:] = np.nextafter(end, np.inf)
+
+            else:  # no extrapolation
+                PP.extrapolate = False
+
+        PP = PP.derivative(nu=deriv)
+        coeffs = PP(time) * 365.25**deriv
+
+        return coeffs
+
+    def to_ppdict(self):
+        """
+        Return a dictionary of the piecewise polynomial that is compatible with
+        MATLAB's pp-form.
+
+        Returns
+        -------
+        pp : dict
+            Dictionary of the pp-form compatible with MATLAB. Elements are
+            NumPy arrays.
+
+        See Also
+        --------
+        Base.save_matfile
+
+        """
+
+        pp = dict(
+            form='pp',
+            order=np.array(self.order, float),
+            pieces=np.array(self.pieces, float),
+            dim=np.array(self.dim, float),
+            breaks=self.breaks.copy().reshape((1, -1)),  # ensure 2d
+            coefs=np.reshape(self.coeffs.copy(), (self.order, -1)).transpose()
+        )
+
+        return pp
+
+    def save_matfile(self, filepath, path=None):
+        """
+        Save piecewise polynomial as MAT-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Filepath and name of MAT-file.
+        path : str
+            Location in MAT-file. Defaults to ``'/pp'``.
+
+        See Also
+        --------
+        Base.to_ppdict
+
+        """
+
+        if path is None:
+            path = '/pp'
+
+        pp = self.to_ppdict()
+
+        hdf.write(pp, path=path, filename=filepath, matlab_compatible=True)
+
+
+class BaseModel(Base):
+    """
+    Class for piecewise polynomial spherical harmonic models.
+
+    Parameters
+    ----------
+    name : str
+        User specified name of the model.
+    breaks : ndarray, shape (m+1,)
+        Break points (`m` pieces plus one) for the piecewise polynomial
+        representation of the field model in modified Julian date format.
+        If a single break point is given, it is appended to itself to have two
+        points defining the model interval (single piece).
+    order : int, positive
+        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
+    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
+        Coefficients of the piecewise polynomial representation of the
+        field model.
+    source : {'internal', 'external'}
+        Internal or external source (defaults to ``'internal'``)
+    meta : dict, optional
+        Dictionary containing additional information about the model if
+        available.
+
+    Attributes
+    ----------
+    breaks : ndarray, shape (m+1,)
+        Break points (`m` pieces plus one) for the piecewise polynomial
+        representation of the field model in modified Julian date format.
+    pieces : int, positive
+        Number `m` of intervals given by break points in ``breaks``.
+    order : int, positive
+        Order `k` of the polynomial pieces (e.g. 1 = constant, 4 = cubic).
+    nmax : int, positive
+        Maximum spherical harmonic degree of the field model.
+    dim : int, ``nmax`` * (``nmax`` + 2)
+        Dimension of the model.
+    coeffs : ndarray, shape (`k`, `m`, ``nmax`` * (``nmax`` + 2))
+        Coefficients of the time-dependent field.
+    source : {'internal', 'external'}
+        Internal or external source (defaults to ``'internal'``)
+    meta : dict, optional
+        Dictionary containing additional information about the model if
+        available.
+
+    """
+
+    def __init__(self, name, breaks=None, order=None, coeffs=None,
+                 source=None, meta=None):
+        """
+        Initialize spherical harmonic model as a piecewise polynomial.
+
+        """
+
+        super().__init__(name, breaks=breaks, order=order, coeffs=coeffs,
+                         meta=meta)
+
+        if self.dim is None:
+            self.nmax = None
+        else:
+            self.nmax = int(np.sqrt(self.dim + 1) - 1)
+
+        self.source = 'internal' if source is None else source
+
+    def synth_coeffs(self, time, *, nmax=None, deriv=None, extrapolate=None):
+        """
+        Compute the coefficients from the piecewise polynomial representation.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+             +------------+---------------------------------------------------+
+             | Value      | Description                                       |
+             +============+===================================================+
+             | 'constant' | Use degree zero polynomial only (extrapolate=1).  |
+             +------------+---------------------------------------------------+
+             | 'linear'   | Use degree-1 polynomials (extrapolate=2).         |
+             +------------+---------------------------------------------------+
+             | 'quadratic'| Use degree-2 polynomials (extrapolate=3).         |
+             +------------+---------------------------------------------------+
+             | 'cubic'    | Use degree-3 polynomials (extrapolate=4).         |
+             +------------+---------------------------------------------------+
+             | 'spline'   | Use all degree polynomials.                       |
+             +------------+---------------------------------------------------+
+             | 'off'      | Return NaN outside model bounds (extrapolate=0).  |
+             +------------+---------------------------------------------------+
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Array containing the coefficients.
+
+        """
+
+        dim = None if nmax is None else int(nmax*(nmax+2))
+        coeffs = super().synth_coeffs(time, dim=dim, deriv=deriv,
+                                      extrapolate=extrapolate)
+
+        return coeffs
+
+    def synth_values(self, time, radius, theta, phi, *, nmax=None,
+                     deriv=None, grid=None, extrapolate=None):
+        """
+        Compute magnetic components from the field model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian date.
+        radius : ndarray, shape (...) or float
+            Radius in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid.
+            Arrays ``theta`` and ``phi`` must have one dimension less than the
+            output grid since the grid will be created as their outer product.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        """
+
+        if nmax is None:
+            nmax = self.nmax
+        elif nmax > self.nmax:
+            warnings.warn(
+                f'Supplied nmax = {nmax} is incompatible with number of '
+                f'coefficients. Using nmax = {self.nmax} instead.'
+            )
+            nmax = self.nmax
+
+        coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,
+                                   extrapolate=extrapolate)
+
+        return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,
+                               source=self.source, grid=grid)
+
+    def power_spectrum(self, time, radius=None, **kwargs):
+        """
+        Compute the spatial power spectrum.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...)
+            Time in modified Julian date.
+        radius : float, optional
+            Radius in kilometers (defaults to Earth's surface defined in
+            ``basicConfig['r_surf']``).
+
+        Returns
+        -------
+        R_n : ndarray, shape (..., ``nmax``)
+            Spatial power spectrum of the spherical harmonic expansion up to
+            degree ``nmax``.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.synth_coeffs` method.
+
+        See Also
+        --------
+        chaosmagpy.model_utils.power_spectrum
+
+        """
+
+        if radius is None:
+            radius = config_utils.basicConfig['params.r_surf']
+
+        coeffs = self.synth_coeffs(time, **kwargs)
+        spec = mu.power_spectrum(coeffs, radius, source=self.source)
+
+        return spec
+
+    def plot_power_spectrum(self, time, **kwargs):
+        """
+        Plot the spatial power spectrum.
+
+        Parameters
+        ----------
+        time : float
+            Time in modified Julian date.
+
+        Other Parameters
+        ----------------
+        radius : float, optional
+            Radius in kilometers (defaults to Earth's surface defined in
+            basicConfig['r_surf']).
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.model_utils.power_spectrum
+
+        """
+
+        defaults = dict(radius=None,
+                        deriv=0,
+                        nmax=self.nmax,
+                        titles='spatial power spectrum')
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        radius = kwargs.pop('radius')
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+
+        units = f'({du.gauss_units(deriv)})$^2$'
+        kwargs.setdefault('ylabel', units)
+
+        R_n = self.power_spectrum(time, radius, nmax=nmax, deriv=deriv)
+
+        pu.plot_power_spectrum(R_n, **kwargs)
+
+    def plot_maps(self, time, radius, **kwargs):
+        """
+        Plot global maps of the field components.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time in modified Julian date.
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options are passed to :func:`plot_utils.plot_maps`
+            function.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.plot_utils.plot_maps
+
+        """
+
+        defaults = dict(deriv=0, nmax=self.nmax)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        # remove keywords that are not intended for pcolormesh
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
+
+        # add plot_maps options to dictionary
+        kwargs.setdefault('label', du.gauss_units(deriv))
+        kwargs.setdefault('titles', titles)
+
+        # handle optional argument: nmax > coefficient nmax
+        if nmax > self.nmax:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.nmax))
+            nmax = self.nmax
+
+        time = np.array(time, dtype=float)
+        theta = np.linspace(1, 179, num=320)
+        phi = np.linspace(-180, 180, num=640)
+
+        B_radius, B_theta, B_phi = self.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv,
+            grid=True, extrapolate=None)
+
+        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi, **kwargs)
+
+    def plot_timeseries(self, radius, theta, phi, **kwargs):
+        """
+        Plot the time series of the time-dependent field components at a
+        specific location.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (), (1,) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (), (1,) or float
+            Longitude in degrees.
+
+        Other Parameters
+        ----------------
+        nmax : int, positive, optional
+            Maximum degree of the harmonic expansion (default is given by the
+            model coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
+            Extrapolate to times outside of the model bounds. Defaults to
+            ``'linear'``.
+        **kwargs : keywords
+            Other options to pass to :func:`plot_utils.plot_timeseries`
+            function.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        See Also
+        --------
+        chaosmagpy.plot_utils.plot_timeseries
+
+        """
+
+        defaults = dict(deriv=0,
+                        nmax=self.nmax,
+                        titles=['$B_r$', '$B_\\theta$', '$B_\\phi$'],
+                        extrapolate=None)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        # remove keywords that are not intended for pcolormesh
+        nmax = kwargs.pop('nmax')
+        deriv = kwargs.pop('deriv')
+        extrapolate = kwargs.pop('extrapolate')
+
+        # add options to dictionary
+        kwargs.setdefault('ylabel', du.gauss_units(deriv))
+
+        time = np.linspace(self.breaks[0], self.breaks[-1], num=500)
+
+        B_radius, B_theta, B_phi = self.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv,
+            extrapolate=extrapolate)
+
+        pu.plot_timeseries(time, B_radius, B_theta, B_phi, **kwargs)
+
+    @classmethod
+    def from_bspline(cls, name, knots, coeffs, order, source=None, meta=None):
+        """
+        Return BaseModel instance from a B-spline representation.
+
+        Parameters
+        ----------
+        name : str
+            User specified name of the model.
+        knots : ndarray, shape (N,)
+            B-spline knots. Knots must have endpoint multiplicity equal to
+            ``order``. Zero-pad ``coeffs`` if needed.
+        coeffs : ndarray, shape (M, D)
+            Bspline coefficients for the `M` B-splines parameterizing
+            `D` dimensions.
+        order : int
+            Order of the B-spline.
+        source : {'internal', 'external'}
+            Internal or external source (defaults to ``'internal'``)
+        meta : dict, optional
+            Dictionary containing additional information about the model.
+
+        Returns
+        -------
+        model : :class:`BaseModel`
+            Class :class:`BaseModel` instance.
+
+        """
+
+        coeffs_pp, breaks = mu.pp_from_bspline(coeffs, knots, order)
+
+        return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
+                   source=source, meta=meta)
+
+    def to_shc(self, filepath, *, leap_year=None, nmin=None, nmax=None,
+               header=None):
+        """
+        Save spherical harmonic coefficients to a file in `shc`-format.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of output file `*.shc`.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+        nmin : int, optional
+            Minimum spherical harmonic degree (defaults to 1). This will remove
+            first values from coeffs if greater than 1.
+        nmax : int, optional
+            Maximum spherical harmonic degree (defaults to the maximum degree
+            of the model given by ``self.nmax``).
+        header : str, optional
+            Optional header at beginning of file (defaults to a comment line
+            with the name of the model given by ``self.name``).
+
+        """
+
+        leap_year = False if leap_year is None else leap_year
+        header = f"# {self.name}\n" if header is None else header
+        nmin = 1 if nmin is None else int(nmin)
+        nmax = self.nmax if nmax is None else int(nmax)
+
+        if self.coeffs is None:
+            raise ValueError("Spline coefficients are missing.")
+
+        step = max(self.order - 1, 1)
+
+        # compute times in mjd2000
+        if (self.order == 1):
+            # piecewise constant, drop coefficients at last break point
+            times = self.breaks[:-1]
+
+        else:
+            # insert extra samples in between break points
+            times = np.array([], dtype=float)
+
+            for start, end in zip(self.breaks[:-1], self.breaks[1:]):
+                times = np.append(
+                    times, np.linspace(start, end, num=step, endpoint=False))
+
+            times = np.append(times, self.breaks[-1])
+
+        gauss_coeffs = self.synth_coeffs(times, nmax=self.nmax)
+
+        du.save_shcfile(times, gauss_coeffs, order=self.order,
+                        filepath=filepath, nmin=nmin, nmax=nmax,
+                        leap_year=leap_year, header=header)
+
+    @classmethod
+    def from_shc(cls, filepath, *, name=None, leap_year=None,
+                 source=None, meta=None):
+        """
+        Return BaseModel instance by loading a model from an SHC-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to SHC-file.
+        name : str, optional
+            User defined name of the model. Defaults to the filename without
+            the file extension.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+        source : {'internal', 'external'}
+            Internal or external source (defaults to ``'internal'``)
+        meta : dict, optional
+            Dictionary containing additional information about the model.
+
+        Returns
+        -------
+        model : :class:`BaseModel`
+            Class :class:`BaseModel` instance.
+
+        """
+
+        if name is None:
+            # get name without extension
+            name = os.path.splitext(os.path.basename(filepath))[0]
+
+        source = 'internal' if source is None else source
+        leap_year = False if leap_year is None else leap_year
+
+        time, coeffs, params = du.load_shcfile(filepath, leap_year=leap_year)
+
+        coeffs = coeffs.T  # (Nt, Nc): simplifies array manipulations
+
+        nmin = params['nmin']
+        nmax = params['nmax']
+        order = params['order']
+        step = max(params['step'], 1)
+
+        if order == 1:
+            # piecewise constant
+            # duplicate endpoint to have a proper interval for the polynomial
+            breaks = np.append(time, time[-1])  # zero length interval is ok
+        else:
+            breaks = time[::step]
+
+        # need to pad coefficients if nmin > 1 (no n < nmin coeffs in shc file)
+        if nmin > 1:
+            coeffs_pad = np.zeros((coeffs.shape[0], nmax*(nmax + 2)))
+            coeffs_pad[:, int(nmin**2 - 1):] = coeffs
+        else:
+            coeffs_pad = coeffs
+
+        if (order == 1):  # piecewise constant
+
+            coeffs_pp = coeffs_pad[None, ...]  # insert singleton at 0th axis
+
+            return cls(name, breaks=breaks, order=order, coeffs=coeffs_pp,
+                       source=source, meta=meta)
+
+        else:  # model must be time-dependent (incl. piecewise constant)
+
+            # there may be extra sites to extend the model interval,
+            # but these extrapolation sites are just discarded here
+            end = ((time.size - 1) // step) * step + 1
+
+            knots = mu.augment_breaks(breaks, order)
+            spl = sip.make_lsq_spline(time[:end], coeffs_pad[:end, :],
+                                      knots, order - 1)
+            coeffs_pp = spl.c.copy()
+
+            # convert B-spline basis to PPoly
+            return cls.from_bspline(name, knots=knots, coeffs=coeffs_pp,
+                                    order=order, source=source, meta=meta)
+
+
+class CHAOS(object):
+    """
+    Class for the time-dependent geomagnetic field model CHAOS.
+
+    Parameters
+    ----------
+    breaks : ndarray, shape (m+1,)
+        Break points for piecewise polynomial representation of the
+        time-dependent internal (i.e. large-scale core) field in modified
+        Julian date format.
+    order : int, positive
+        Order `k` of polynomial pieces (e.g. 4 = cubic) of the time-dependent
+        internal field.
+    coeffs_tdep : ndarray, shape (`k`, `m`, ``n_tdep`` * (``n_tdep`` + 2))
+        Coefficients of the time-dependent internal field as piecewise
+        polynomial.
+    coeffs_static : ndarray,  shape (``n_static`` * (``n_static`` + 2),)
+        Coefficients of the static internal (i.e. small-scale crustal) field.
+    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
+        Coefficients of the static external field in SM coordinates.
+    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
+        Coefficients of the static external field in GSM coordinates.
+    breaks_delta : dict with ndarrays, shape (:math:`m_q` + 1,)
+        Breaks of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
+        Coefficients of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    breaks_euler : dict with ndarrays, shape (:math:`m_e` + 1,)
+        Dictionary containing satellite name as key and corresponding break
+        vectors of Euler angles (keys are ``'oersted'``, ``'champ'``,
+        ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``, ``'swarm_c'``,
+        ``'cryosat-2_1'``).
+    coeffs_euler : dict with ndarrays, shape (1, :math:`m_e`, 3)
+        Dictionary containing satellite name as key and arrays of the Euler
+        angles alpha, beta and gamma as trailing dimension (keys are
+        ``'oersted'``, ``'champ'``, ``'sac_c'``, ``'swarm_a'``, ``'swarm_b'``,
+        ``'swarm_c'``, ``'cryosat-2_1'``).
+    breaks_cal : dict with ndarrays, shape (:math:`m_c` + 1,)
+        Dictionary containing satellite name as key and corresponding break
+        vectors for the calibration parameters (keys are ``'cryosat-2_1'``).
+    coeffs_cal : dict with ndarrays, shape (1, :math:`m_c`, 3)
+        Dictionary containing satellite name as key and arrays of the 9 basic
+        calibration parameters (3 offsets, 3 sensitivities, 3
+        non-orthogonality angles) (keys are ``'cryosat-2_1'``).
+    name : str, optional
+        User defined name of the model. Defaults to ``'CHAOS'``.
+    meta : dict, optional
+        Dictionary containing additional information about the model.
+
+    Attributes
+    ----------
+    timestamp : str
+        UTC timestamp at initialization.
+    model_tdep : :class:`BaseModel` instance
+        Time-dependent internal field model.
+    model_static : :class:`BaseModel` instance
+        Static internal field model.
+    model_euler : dict of :class:`Base` instances
+        Dictionary containing the satellite's name as key and the Euler angles
+        as :class:`Base` class instance.
+    model_cal : dict of :class:`Base` instances
+        Dictionary containing the satellite's name as key and the calibration
+        parameters as :class:`Base` class instance.
+    n_sm : int, positive
+        Maximum spherical harmonic degree of external field in SM coordinates.
+    coeffs_sm : ndarray, shape (``n_sm`` * (``n_sm`` + 2),)
+        Coefficients of static external field in SM coordinates.
+    n_gsm : int, positive
+        Maximum spherical harmonic degree of external field in GSM coordinates.
+    coeffs_gsm : ndarray, shape (``n_gsm`` * (``n_gsm`` + 2),)
+        Coefficients of static external field in GSM coordinates.
+    breaks_delta : dict with ndarrays, shape (:math:`m_q` +1,)
+        Breaks of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    coeffs_delta : dict with ndarrays, shape (1, :math:`m_q`)
+        Coefficients of baseline corrections of static external field in SM
+        coordinates. The dictionary keys are ``'q10'``, ``'q11'``, ``'s11'``.
+    name : str, optional
+        User defined name of the model.
+    meta : dict, optional
+        Dictionary containing additional information about the model.
+
+    Examples
+    --------
+    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+    directory like this:
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+    >>> print(model)
+
+    For more examples, see the documentation of the methods below.
+
+    """
+
+    def __init__(
+        self,
+        breaks,
+        order=None,
+        *,
+        coeffs_tdep=None,
+        coeffs_static=None,
+        coeffs_sm=None,
+        coeffs_gsm=None,
+        breaks_delta=None,
+        coeffs_delta=None,
+        breaks_euler=None,
+        coeffs_euler=None,
+        breaks_cal=None,
+        coeffs_cal=None,
+        name=None,
+        meta=None
+    ):
+        """
+        Initialize the CHAOS model.
+
+        """
+
+        self.timestamp = str(datetime.datetime.now(datetime.timezone.utc))
+
+        # give the model a name: CHAOS or user input
+        if name is None:
+            name = "CHAOS"
+
+        self.name = str(name)
+
+        # model period
+        self._period = (breaks[0], breaks[-1])
+
+        # internal field
+        if coeffs_tdep is None:
+            self.model_tdep = None
+        else:
+            self.model_tdep = BaseModel(
+                name=name + '_tdep',
+                breaks=breaks,
+                order=order,
+                coeffs=coeffs_tdep,
+                source='internal'
+            )
+
+        if coeffs_static is None:
+            self.model_static = None
+        else:
+            self.model_static = BaseModel(
+                name=name + '_static',
+                breaks=breaks[[0, -1]],
+                order=1,
+                coeffs=coeffs_static,
+                source='internal'
+            )
+
+        # helper for returning the degree of the provided coefficients
+        def dimension(coeffs):
+            if coeffs is None:
+                return coeffs
+            else:
+                return int(np.sqrt(coeffs.shape[-1] + 1) - 1)
+
+        # external source in SM reference
+        self.coeffs_sm = coeffs_sm
+        self.n_sm = dimension(coeffs_sm)
+
+        # external source in GSM reference
+        self.coeffs_gsm = coeffs_gsm
+        self.n_gsm = dimension(coeffs_gsm)
+
+        # external source in SM reference: RC offset
+        self.breaks_delta = breaks_delta
+        self.coeffs_delta = coeffs_delta
+
+        # Euler angles
+        if breaks_euler is None:
+            self.model_euler = None
+        else:
+            satellites = tuple([*breaks_euler.keys()])
+            self.model_euler = dict()
+
+            for k, satellite in enumerate(satellites):
+
+                try:
+                    Euler_prerotation = meta['params']['Euler_prerotation'][k]
+                except (KeyError, TypeError, IndexError):
+                    Euler_prerotation = None  # not available
+
+                model = Base(
+                    satellite,
+                    order=1,
+                    breaks=breaks_euler[satellite],
+                    coeffs=coeffs_euler[satellite],
+                    meta={
+                        'Euler_prerotation': Euler_prerotation
+                    }
+                )
+                self.model_euler[satellite] = model
+
+        # calibration parameters
+        if breaks_cal is None:
+            self.model_cal = None
+        else:
+            satellites = tuple([*breaks_cal.keys()])
+            self.model_cal = dict()
+
+            for k, satellite in enumerate(satellites):
+
+                model = Base(
+                    satellite,
+                    order=1,
+                    breaks=breaks_cal[satellite],
+                    coeffs=coeffs_cal[satellite],
+                )
+                self.model_cal[satellite] = model
+
+        self.meta = meta
+
+    def __call__(self, time, radius, theta, phi, rc_e=None, rc_i=None,
+                 source_list=None, nmax_static=None, verbose=None):
+        """
+        Calculate the magnetic field of all sources from the CHAOS model.
+
+        All sources means the time-dependent and static internal fields, and
+        the external magnetospheric (SM/GSM) fields including their
+        induced parts.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        rc_e : ndarray, shape (...), optional
+            External part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        rc_i : ndarray, shape (...), optional
+            Internal part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        source_list : list, ['tdep', 'static', 'gsm', 'sm'] or \
+str, {'internal', 'external'}
+            Specify sources in any order. Default is all sources. Instead of a
+            list, pass ``source_list='internal'`` which is equivalent to
+            ``source_list=['tdep', 'static']`` (internal sources) or
+            ``source_list='external'`` which is the same as
+            ``source_list=['gsm', 'sm']`` (external sources including induced
+            part).
+        nmax_static : int, optional
+            Maximum spherical harmonic degree of the static internal magnetic
+            field (defaults to 85).
+        verbose : {False, True}, optional
+            Print messages (defaults to ``False``).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> Br, Bt, Bp = model(0., 6371.2, 45., 0., source_list=['tdep', \
+'static'])  # only internal sources
+        >>> Br
+        array(-40418.23217586)
+
+        """
+
+        time = np.asarray(time, dtype=float)
+        radius = np.asarray(radius, dtype=float)
+        theta = np.asarray(theta, dtype=float)
+        phi = np.asarray(phi, dtype=float)
+
+        if source_list is None:
+            source_list = ['tdep', 'static', 'gsm', 'sm']
+
+        elif source_list == 'internal':
+            source_list = ['tdep', 'static']
+
+        elif source_list == 'external':
+            source_list = ['gsm', 'sm']
+
+        source_list = np.ravel(np.array(source_list))
+
+        for source in source_list:
+            if source not in ('tdep', 'static', 'gsm', 'sm'):
+                raise ValueError(f'Unknown source "{source}". '
+                                 'Use {tdep, static, gsm, sm}.')
+
+        verbose = bool(verbose)
+
+        # get shape of broadcasted result
+        try:
+            b = np.broadcast(time, radius, theta, phi)
+        except ValueError:
+            print('Cannot broadcast grid shapes:')
+            print(f'time:   {time.shape}')
+            print(f'radius: {radius.shape}')
+            print(f'theta:  {theta.shape}')
+            print(f'phi:    {phi.shape}')
+            raise
+
+        grid_shape = b.shape
+
+        B_radius = np.zeros(grid_shape)
+        B_theta = np.zeros(grid_shape)
+        B_phi = np.zeros(grid_shape)
+
+        if 'tdep' in source_list:
+
+            if verbose:
+                print(f'Computing time-dependent internal field'
+                      f' up to degree {self.model_tdep.nmax}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_tdep(
+                time, radius, theta, phi)
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'static' in source_list:
+
+            nmax_static = 85 if nmax_static is None else nmax_static
+
+            if verbose:
+                print(f'Computing static internal (i.e. small-scale crustal) '
+                      f'field up to degree {nmax_static}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_static(
+                radius, theta, phi, nmax=nmax_static)
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'gsm' in source_list:
+
+            if verbose:
+                print(f'Computing GSM field up to degree {self.n_gsm}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_gsm(
+                time, radius, theta, phi, source='all')
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        if 'sm' in source_list:
+
+            if verbose:
+                print(f'Computing SM field up to degree {self.n_sm}.')
+
+            s = timer()
+            B_radius_new, B_theta_new, B_phi_new = self.synth_values_sm(
+                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')
+
+            B_radius += B_radius_new
+            B_theta += B_theta_new
+            B_phi += B_phi_new
+            e = timer()
+
+            if verbose:
+                print('Finished in {:.6} seconds.'.format(e-s))
+
+        return B_radius, B_theta, B_phi
+
+    def __str__(self):
+        """
+        Print model version and initialization timestamp.
+        """
+
+        string = (f"{self.name}: Initialized on {self.timestamp} UTC.")
+
+        return string
+
+    def synth_coeffs_tdep(self, time, *, nmax=None, **kwargs):
+        """
+        Compute the spherical harmonic coefficients of the time-dependent
+        internal magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.synth_coeffs`
+            method.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Coefficients of the time-dependent internal field.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+
+        >>> model.synth_coeffs_tdep(time, nmax=1)  # dipole coefficients
+        array([[-29614.72797782,  -1728.47079907,   5185.50518939],
+               [-29614.33800306,  -1728.13680075,   5184.89196286]])
+
+        >>> model.synth_coeffs_tdep(time, nmax=1, deriv=1)  # SV coefficients
+        array([[ 14.25577646,  12.20214856, -22.43412895],
+               [ 14.2317297 ,  12.19625726, -22.36146885]])
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        return self.model_tdep.synth_coeffs(time, nmax=nmax, **kwargs)
+
+    def synth_values_tdep(self, time, radius, theta, phi, *, nmax=None,
+                          deriv=None, grid=None, extrapolate=None):
+        """
+        Compute the vector components of the time-dependent internal
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in modified Julian dates.
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (None defaults to 0). For secular variation,
+            choose ``deriv=1``.
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid.
+            Arrays ``theta`` and ``phi`` must have one dimension less than the
+            output grid since the grid will be created as their outer product.
+        extrapolate : {'linear', 'quadratic', 'cubic', 'spline', 'constant', \
+'off'} or int, optional
+            Extrapolate to times outside of the model bounds. Specify
+            polynomial degree as string or any order as integer. Defaults to
+            ``'linear'`` (equiv. to order 2 polynomials).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+
+        Compute magnetic field components at specific location.
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-40422.44815265, -40423.15091334])
+
+        Only dipole contribution:
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0., nmax=1)
+        >>> Br
+        array([-44325.97679843, -44324.95294588])
+
+        Secular variation:
+
+        >>> Br, Bt, Bp = model.synth_values_tdep(time, 6371.2, 45., 0.,\
+ deriv=1)
+        >>> Br
+        array([-25.64604374, -25.69002078])
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        return self.model_tdep.synth_values(
+            time, radius, theta, phi, nmax=nmax, deriv=deriv, grid=grid,
+            extrapolate=extrapolate)
+
+    def plot_timeseries_tdep(self, radius, theta, phi, **kwargs):
+        """
+        Plot the time series of the time-dependent internal field from the
+        CHAOS model at a given location.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (), (1,) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (), (1,) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options to pass to :meth:`BaseModel.plot_timeseries`
+            method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        self.model_tdep.plot_timeseries(radius, theta, phi, **kwargs)
+
+    def plot_maps_tdep(self, time, radius, *, nmax=None, deriv=None, **kwargs):
+        """
+        Plot global map of the time-dependent internal field from the CHAOS
+        model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time given as MJD2000 (modified Julian date).
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        deriv : int, positive, optional
+            Derivative in time (default is 0). For secular variation, choose
+            ``deriv=1``.
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.plot_maps` method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_tdep is None:
+            raise ValueError("Time-dependent internal field coefficients "
+                             "are missing.")
+
+        self.model_tdep.plot_maps(time, radius, nmax=nmax,
+                                  deriv=deriv, **kwargs)
+
+    def synth_coeffs_static(self, *, nmax=None, **kwargs):
+        """
+        Compute the spherical harmonic coefficients of the static internal
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.synth_coeffs`
+            method.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (``nmax`` * (``nmax`` + 2),)
+            Coefficients of the static internal field.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_static(nmax=50)
+        array([ 0.     , 0.     ,  0.     , ...,  0.01655, -0.06339,  0.00715])
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        time = self.model_static.breaks[0]
+        return self.model_static.synth_coeffs(time, nmax=nmax, **kwargs)
+
+    def synth_values_static(self, radius, theta, phi, *, nmax=None, **kwargs):
+        """
+        Compute the vector components of the static internal magnetic field
+        from the CHAOS model.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (...) or float
+            Radius of station in kilometers.
+        theta : ndarray, shape (...) or float
+            Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`.
+        phi : ndarray, shape (...) or float
+            Longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.synth_values`
+            method.
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> Br, Bt, Bp = model.synth_values_static(6371.2, 45., 0., nmax=50)
+        >>> Br
+        array(-7.5608993)
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        time = self.model_static.breaks[0]
+        return self.model_static.synth_values(time, radius, theta, phi,
+                                              nmax=nmax, **kwargs)
+
+    def plot_maps_static(self, radius, *, nmax=None, **kwargs):
+        """
+        Plot global map of the static internal field from the CHAOS model.
+
+        Parameters
+        ----------
+        radius : ndarray, shape (), (1,) or float
+            Array containing the radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        **kwargs : keywords
+            Other options are passed to :meth:`BaseModel.plot_maps`
+            method.
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        if self.model_static is None:
+            raise ValueError("Static internal field coefficients are missing.")
+
+        defaults = dict(cmap='nio',
+                        deriv=0,
+                        vmax=200,
+                        vmin=-200)
+
+        kwargs = pu.defaultkeys(defaults, kwargs)
+
+        time = self.model_static.breaks[0]
+
+        self.model_static.plot_maps(time, radius, nmax=nmax, **kwargs)
+
+    def synth_coeffs_gsm(self, time, *, nmax=None, source=None):
+        """
+        Compute the spherical harmonic coefficients of the far-magnetospheric
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in days.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'external', 'internal'}, optional
+            Choose source either external or internal (default is 'external').
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Spherical harmonic coefficients of the far-magnetospheric magnetic
+            field with respect to geographic coordinates (GEO).
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_gsm(0.0)
+        array([11.63982782, -4.9276483 , -2.36281582,  0.46063709, -0.37934517,
+               -0.18234297,  0.06281656,  0.07757099])
+
+        """
+
+        if self.coeffs_gsm is None:
+            raise ValueError("External GSM field coefficients are missing.")
+
+        # handle optional argument: nmax
+        if nmax is None:
+            nmax = self.n_gsm
+        elif nmax > self.n_gsm:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.n_gsm))
+            nmax = self.n_gsm
+
+        if source is None:
+            source = 'external'
+
+        # ensure ndarray input
+        time = np.asarray(time, dtype=float)
+
+        # use static part to define modelled period
+        start, end = self._period
+
+        if np.amin(time) < start or np.amax(time) > end:
+            warnings.warn(
+                'Requested coefficients are outside of the '
+                f'model period from {start} to {end}. Doing linear '
+                'extrapolation of the coefficients in the GSM reference '
+                'frame.')
+
+        # build rotation matrix from file
+        frequency_spectrum = np.load(
+            config_utils.basicConfig['file.GSM_spectrum'])
+        assert np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']), \
+            "GSM rotation coefficients not compatible with the chosen dipole."
+
+        if source == 'external':
+            # unpack file: oscillations per day, complex spectrum
+            frequency = frequency_spectrum['frequency']
+            spectrum = frequency_spectrum['spectrum']
+            scaled = frequency_spectrum['scaled']
+
+            # build rotation matrix for external field coefficients GSM -> GEO
+            rotate_gauss = cu.synth_rotate_gauss(
+                time, frequency, spectrum, scaled=scaled)
+
+            # rotate external GSM coefficients to GEO reference
+            coeffs = np.matmul(rotate_gauss, self.coeffs_gsm)
+
+        elif source == 'internal':
+            # unpack file: oscillations per day, complex spectrum
+            frequency_ind = frequency_spectrum['frequency_ind']
+            spectrum_ind = frequency_spectrum['spectrum_ind']
+            scaled = frequency_spectrum['scaled']
+
+            # build rotation matrix for external field coefficients GSM -> GEO
+            rotate_gauss_ind = cu.synth_rotate_gauss(
+                time, frequency_ind, spectrum_ind, scaled=scaled)
+
+            # rotate internal GSM coefficients to GEO reference
+            coeffs = np.matmul(rotate_gauss_ind, self.coeffs_gsm)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''external'', ''internal''}.')
+
+        return coeffs[..., :nmax*(nmax+2)]
+
+    def synth_values_gsm(self, time, radius, theta, phi, *, nmax=None,
+                         source=None, grid=None):
+        """
+        Compute the vector components of the far-magnetospheric magnetic
+        field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        radius : float or ndarray, shape (...)
+            Array containing the radius in kilometers.
+        theta : float or ndarray, shape (...)
+            Array containing the colatitude in degrees
+            :math:`[0^\\circ,180^\\circ]`.
+        phi : float or ndarray, shape (...)
+            Array containing the longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            both added (default to 'all').
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid,
+            which is created from ``theta`` and ``phi`` as their outer product
+            (defaults to ``False``).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+        >>> Br, Bt, Bp = model.synth_values_gsm(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-8.18751916, -8.25661729])
+
+        """
+
+        source = 'all' if source is None else source
+        grid = False if grid is None else grid
+
+        if source == 'all':
+            coeffs_ext = self.synth_coeffs_gsm(time, nmax=nmax,
+                                               source='external')
+            coeffs_int = self.synth_coeffs_gsm(time, nmax=nmax,
+                                               source='internal')
+
+            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
+                coeffs_ext, radius, theta, phi, source='external', grid=grid)
+            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
+                coeffs_int, radius, theta, phi, source='internal', grid=grid)
+
+            B_radius = B_radius_ext + B_radius_int
+            B_theta = B_theta_ext + B_theta_int
+            B_phi = B_phi_ext + B_phi_int
+
+        elif source in ['external', 'internal']:
+            coeffs = self.synth_coeffs_gsm(time, nmax=nmax, source=source)
+            B_radius, B_theta, B_phi = mu.synth_values(
+                coeffs, radius, theta, phi, source=source, grid=grid)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        return B_radius, B_theta, B_phi
+
+    def synth_coeffs_sm(self, time, *, nmax=None, source=None, rc=None):
+        """
+        Compute the spherical harmonic coefficients of the near-magnetospheric
+        magnetic field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (...) or float
+            Array containing the time in days.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'external', 'internal'}, optional
+            Choose source either external or internal (default is 'external').
+        rc : ndarray, shape (...), optional
+            External (internal) part of the RC-index (defaults to linearly
+            interpolating the hourly values given by the built-in RC-index
+            file). Use the external part of the RC-index for
+            ``source='external'`` (default) and the internal part for
+            ``source='internal'``. See also the notes section below for more
+            information on the RC-index file.
+
+        Returns
+        -------
+        coeffs : ndarray, shape (..., ``nmax`` * (``nmax`` + 2))
+            Spherical harmonic coefficients of the near-magnetospheric magnetic
+            field with respect to geographic coordinates (GEO).
+
+        Notes
+        -----
+        The computation of the near-magnetospheric field coefficients requires
+        the RC-index. If the values of the RC-index are not supplied
+        directly via the ``rc`` input argument, a built-in RC-index file is
+        loaded. This file goes with a specific version of the CHAOS model,
+        which can be inspected by running
+        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
+        session. It is recommended to use this version of the CHAOS model
+        together with the built-in RC-index.
+
+        For the latest CHAOS model, if necessary, a suitable RC-index file can
+        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
+        RC-index file by either providing interpolated values from the
+        downloaded file via the ``rc`` input argument, or by replacing
+        the path in ChaosMagPy's configuration dictionary
+        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
+        downloaded file (for more details, see Sect.
+        :ref:`sec-configuration-change-rc-index-file`).
+
+        See Also
+        --------
+        CHAOS.synth_values_sm
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> model.synth_coeffs_sm(0.)
+        array([53.20309271,  3.79138724, -8.59458138, -0.62818711,  1.45506171,
+               -0.57977672, -0.31660638, -0.43888236])
+
+        """
+
+        if self.coeffs_sm is None:
+            raise ValueError("External SM field coefficients are missing.")
+
+        # handle optional argument: nmax
+        if nmax is None:
+            nmax = self.n_sm
+        elif nmax > self.n_sm:
+            warnings.warn(
+                'Supplied nmax = {0} is incompatible with number of model '
+                'coefficients. Using nmax = {1} instead.'.format(
+                    nmax, self.n_sm))
+            nmax = self.n_sm
+
+        if source is None:
+            source = 'external'
+
+        # find smallest overlapping time period for breaks_delta
+        start = np.amax([self.breaks_delta['q10'][0],
+                         self.breaks_delta['q11'][0],
+                         self.breaks_delta['s11'][0]])
+        end = np.amin([self.breaks_delta['q10'][-1],
+                       self.breaks_delta['q11'][-1],
+                       self.breaks_delta['s11'][-1]])
+
+        # ensure ndarray input
+        time = np.asarray(time, dtype=float)
+
+        if np.amin(time) < start or np.amax(time) > end:
+            warnings.warn(
+                'Requested coefficients are outside of the '
+                f'model period from {start} to {end}. Doing linear '
+                'extrapolation of the coefficients in the SM reference frame.')
+
+        # load the Fourier spectrum of the coordinate transformation from file
+        frequency_spectrum = np.load(
+            config_utils.basicConfig['file.SM_spectrum'])
+        assert np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']), \
+            ("Coefficients for the SM coordinate transformation are not " +
+             "compatible with the chosen dipole.")
+
+        if rc is None:
+
+            default = config_utils.basicConfig.defaults['file.RC_index'][0]
+            file = config_utils.basicConfig['file.RC_index']
+
+            if file == default:
+                warnings.warn(
+                    'ChaosMagPy is loading the built-in '
+                    'RC-index file recommended for '
+                    f'CHAOS-{config_utils.basicConfig["params.CHAOS_version"]}'
+                    '. If this is not the CHAOS model version that is being '
+                    'used here, consider changing the model and/or the '
+                    'built-in RC-index file '
+                    '(see https://chaosmagpy.readthedocs.io/en/'
+                    'master/configuration.html#change-rc-index-file '
+                    'on how to change the built-in file).'
+                )
+
+            # load RC-index file: first hdf5 then dat-file format
+            try:
+                with h5py.File(file, 'r') as f_RC:
+
+                    # create linear interpolant of the RC-index
+                    RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
+                                      kind='linear', bounds_error=False)
+
+            except OSError:
+                f_RC = du.load_RC_datfile(file)
+
+                # create linear interpolant of the RC-index
+                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],
+                                  kind='linear', bounds_error=False)
+
+            # check RC bounds here to print specific error message
+            rc_below, rc_above = RC._check_bounds(time)
+
+            if rc_below.any() or rc_above.any():
+                raise ValueError("Requested coefficients are outside of the "
+                                 "period covered by the built-in RC-index "
+                                 "file. Either supply values of the RC-index "
+                                 "directly via the ``rc`` input argument or "
+                                 "provide the path to an extended RC-index "
+                                 "file by updating the path in "
+                                 "chaosmagpy.basicParams['file.RC_index'] "
+                                 "(see https://chaosmagpy.readthedocs.io/en/"
+                                 "master/configuration.html#change-rc-"
+                                 "index-file for details).")
+
+            rc = RC(time)  # interpolate RC-index
+
+        else:
+            rc = np.asarray(rc, dtype=float)  # use supplied index values
+
+        # use piecewise polynomials to evaluate baseline correction in bins
+        delta_q10 = sip.PPoly.construct_fast(
+            self.coeffs_delta['q10'].astype(float),
+            self.breaks_delta['q10'].astype(float), extrapolate=True)
+
+        delta_q11 = sip.PPoly.construct_fast(
+            self.coeffs_delta['q11'].astype(float),
+            self.breaks_delta['q11'].astype(float), extrapolate=True)
+
+        delta_s11 = sip.PPoly.construct_fast(
+            self.coeffs_delta['s11'].astype(float),
+            self.breaks_delta['s11'].astype(float), extrapolate=True)
+
+        # unpack file: oscillations per day, complex spectrum
+        frequency = frequency_spectrum['frequency']
+        spectrum = frequency_spectrum['spectrum']
+        scaled = frequency_spectrum['scaled']
+
+        # build rotation matrix for external field coefficients SM -> GEO
+        rotate_gauss = cu.synth_rotate_gauss(
+            time, frequency, spectrum, scaled=scaled)
+
+        if source == 'external':
+            coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
+
+            coeffs_sm[..., 0] = rc*self.coeffs_sm[0] + delta_q10(time)
+            coeffs_sm[..., 1] = rc*self.coeffs_sm[1] + delta_q11(time)
+            coeffs_sm[..., 2] = rc*self.coeffs_sm[2] + delta_s11(time)
+            coeffs_sm[..., 3:] = self.coeffs_sm[3:]
+
+            # rotate external SM coefficients to GEO reference
+            coeffs = np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
+
+        elif source == 'internal':
+            # unpack file: oscillations per day, complex spectrum
+            frequency = frequency_spectrum['frequency_ind']
+            spectrum = frequency_spectrum['spectrum_ind']
+
+            # build rotation matrix for induced coefficients SM -> GEO
+            rotate_gauss_ind = cu.synth_rotate_gauss(
+                time, frequency, spectrum, scaled=scaled)
+
+            # take degree 1 matrix elements of unmodified rotation matrix
+            # since induction effect will be accounted for by RC_i
+            rotate_gauss = rotate_gauss[..., :3, :3]
+
+            coeffs_sm = np.empty(time.shape + (3,))
+
+            coeffs_sm[..., 0] = rc*self.coeffs_sm[0]
+            coeffs_sm[..., 1] = rc*self.coeffs_sm[1]
+            coeffs_sm[..., 2] = rc*self.coeffs_sm[2]
+
+            coeffs_sm_ind = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
+
+            coeffs_sm_ind[..., 0] = delta_q10(time)
+            coeffs_sm_ind[..., 1] = delta_q11(time)
+            coeffs_sm_ind[..., 2] = delta_s11(time)
+            coeffs_sm_ind[..., 3:] = self.coeffs_sm[3:]
+
+            # rotate internal SM coefficients to GEO reference
+            coeffs = np.einsum('...ij,...j', rotate_gauss_ind, coeffs_sm_ind)
+            coeffs[..., :3] += np.einsum('...ij,...j', rotate_gauss, coeffs_sm)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use one of {"external", "internal"}.')
+
+        return coeffs[..., :nmax*(nmax+2)]
+
+    def synth_values_sm(self, time, radius, theta, phi, *,
+                        rc_e=None, rc_i=None, nmax=None, source=None,
+                        grid=None):
+        """
+        Compute the vector components of the near-magnetospheric magnetic
+        field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        radius : float or ndarray, shape (...)
+            Array containing the radius in kilometers.
+        theta : float or ndarray, shape (...)
+            Array containing the colatitude in degrees
+            :math:`[0^\\circ,180^\\circ]`.
+        phi : float or ndarray, shape (...)
+            Array containing the longitude in degrees.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            both added (default to 'all').
+        grid : bool, optional
+            If ``True``, field components are computed on a regular grid,
+            which is created from ``theta`` and ``phi`` as their outer product
+            (defaults to ``False``).
+        rc_e : ndarray, shape (...), optional
+            External part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+        rc_i : ndarray, shape (...), optional
+            Internal part of the RC-index (defaults to linearly interpolating
+            the hourly values given by the built-in RC-index file).
+
+        Returns
+        -------
+        B_radius, B_theta, B_phi : ndarray, shape (...)
+            Radial, colatitude and azimuthal field components.
+
+        Notes
+        -----
+        The computation of the near-magnetospheric field coefficients requires
+        the RC-index. If the values of the RC-index are not supplied
+        directly via the ``rc`` input argument, a built-in RC-index file is
+        loaded. This file goes with a specific version of the CHAOS model,
+        which can be inspected by running
+        ``print(chaosmagpy.basicConfig['params.CHAOS_version'])`` in a Python
+        session. It is recommended to use this version of the CHAOS model
+        together with the built-in RC-index.
+
+        For the latest CHAOS model, if necessary, a suitable RC-index file can
+        be downloaded at :rc_url:`\\ `. Overwrite the use of the built-in
+        RC-index file by either providing interpolated values from the
+        downloaded file via the ``rc`` input argument, or by replacing
+        the path in ChaosMagPy's configuration dictionary
+        ``chaosmagpy.basicParams['file.RC_index']`` with the path to the
+        downloaded file (for more details, see Sect.
+        :ref:`sec-configuration-change-rc-index-file`).
+
+        See Also
+        --------
+        CHAOS.synth_values_sm
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([0., 10.])
+        >>> Br, Bt, Bp = model.synth_values_sm(time, 6371.2, 45., 0.)
+        >>> Br
+        array([-18.85890361, -13.99893523])
+
+        """
+
+        source = 'all' if source is None else source
+        grid = False if grid is None else grid
+
+        if source == 'all':
+
+            coeffs_ext = self.synth_coeffs_sm(
+                time, nmax=nmax, source='external', rc=rc_e)
+            coeffs_int = self.synth_coeffs_sm(
+                time, nmax=nmax, source='internal', rc=rc_i)
+
+            B_radius_ext, B_theta_ext, B_phi_ext = mu.synth_values(
+                coeffs_ext, radius, theta, phi, source='external', grid=grid)
+            B_radius_int, B_theta_int, B_phi_int = mu.synth_values(
+                coeffs_int, radius, theta, phi, source='internal', grid=grid)
+
+            B_radius = B_radius_ext + B_radius_int
+            B_theta = B_theta_ext + B_theta_int
+            B_phi = B_phi_ext + B_phi_int
+
+        elif source in ['external', 'internal']:
+
+            # set the RC-index
+            rc = rc_e if source == 'external' else rc_i
+
+            coeffs = self.synth_coeffs_sm(
+                time, nmax=nmax, source=source, rc=rc)
+            B_radius, B_theta, B_phi = mu.synth_values(
+                coeffs, radius, theta, phi, source=source, grid=grid)
+
+        else:
+            raise ValueError(f'Unknown source "{source}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        return B_radius, B_theta, B_phi
+
+    def plot_maps_external(self, time, radius, *, nmax=None, reference=None,
+                           source=None):
+        """
+        Plot global map of the external field from the CHAOS model.
+
+        Parameters
+        ----------
+        time : ndarray, shape (), (1,) or float
+            Time given as MJD2000 (modified Julian date).
+        radius : ndarray, shape (), (1,) or float
+            Radius in kilometers.
+        nmax : int, positive, optional
+            Maximum degree harmonic expansion (default is given by the model
+            coefficients, but can also be smaller, if specified).
+        reference : {'all', 'GSM', 'SM'}, optional
+            Choose contribution either from GSM, SM or the sum of both
+            (default).
+        source : {'all', 'external', 'internal'}, optional
+            Choose source to be external (inducing), internal (induced) or
+            the sum of both (default).
+
+        Notes
+        -----
+        For more customization get access to the figure and axes handles
+        through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+        right after the call to this plotting method.
+
+        """
+
+        reference = 'all' if reference is None else reference.lower()
+        source = 'all' if source is None else source.lower()
+
+        time = np.array(time, dtype=float)
+        radius = np.array(radius, dtype=float)
+        theta = np.linspace(1, 179, num=320)
+        phi = np.linspace(-180, 180, num=721)
+
+        # compute GSM contribution: external, internal
+        if reference == 'all' or reference == 'gsm':
+
+            # compute magnetic field components
+            B_radius_gsm, B_theta_gsm, B_phi_gsm = self.synth_values_gsm(
+                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
+
+        # compute SM contribution: external, internal
+        if reference == 'all' or reference == 'sm':
+
+            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(
+                time, radius, theta, phi, nmax=nmax, source=source, grid=True)
+
+        if reference == 'all':
+            B_radius = B_radius_gsm + B_radius_sm
+            B_theta = B_theta_gsm + B_theta_sm
+            B_phi = B_phi_gsm + B_phi_sm
+        elif reference == 'gsm':
+            B_radius = B_radius_gsm
+            B_theta = B_theta_gsm
+            B_phi = B_phi_gsm
+        elif reference == 'sm':
+            B_radius = B_radius_sm
+            B_theta = B_theta_sm
+            B_phi = B_phi_sm
+        else:
+            raise ValueError(f'Unknown reference "{reference}". '
+                             'Use {''all'', ''external'', ''internal''}.')
+
+        units = du.gauss_units(0)
+
+        if reference == 'all':
+            titles = [f'$B_r$ ({source} sources)',
+                      f'$B_\\theta$ ({source} sources)',
+                      f'$B_\\phi$ ({source} sources)']
+        else:
+            titles = [f'$B_r$ ({reference.upper()} {source} sources)',
+                      f'$B_\\theta$ ({reference.upper()} {source} sources)',
+                      f'$B_\\phi$ ({reference.upper()} {source} sources)']
+
+        pu.plot_maps(theta, phi, B_radius, B_theta, B_phi,
+                     titles=titles, label=units)
+
+    def synth_euler_angles(self, time, satellite, *, dim=None, deriv=None,
+                           extrapolate=None):
+        """
+        Extract Euler angles for specified satellite.
+
+        Parameters
+        ----------
+        time : float or ndarray, shape (...)
+            Time given as MJD2000 (modified Julian date).
+        satellite : str
+            Satellite from which to get the euler angles.
+        dim : int, positive, optional
+            Maximum dimension (default is 3, for the three angles alpha, beta,
+            gamma).
+        deriv : int, positive, optional
+            Derivative in time (default is 0).
+        extrapolate : {'linear', 'spline', 'constant', 'off'}, optional
+            Extrapolate to times outside of the model bounds. Defaults to
+            ``'linear'``.
+
+        Returns
+        -------
+        angles : ndarray, shape (..., 3)
+            Euler angles alpha, beta and gamma in degrees, stored in trailing
+            dimension.
+
+        Examples
+        --------
+        >>> import chaosmagpy as cp
+        >>> import numpy as np
+        >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> time = np.array([500., 600.])
+        >>> model.meta['satellites']  # check satellite names
+        ('oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c')
+
+        >>> model.synth_euler_angles(time, 'champ')
+        array([[-0.05521985, -1.5763316 ,  0.48787601],
+               [-0.05440427, -1.57966925,  0.49043057]])
+
+        """
+
+        if satellite not in self.model_euler:
+            string = '", "'.join([*self.model_euler.keys()])
+            raise ValueError(
+                        f'Unknown satellite "{satellite}". Use '
+                        f'one of {{"{string}"}}.')
+
+        coeffs = self.model_euler[satellite].synth_coeffs(
+            time, dim=dim, deriv=deriv, extrapolate=extrapolate)
+
+        # add Euler prerotation angles if available in meta
+        pre = self.model_euler[satellite].meta['Euler_prerotation']
+        if pre is not None:
+            warnings.warn(f'Euler pre-rotation has not been applied. '
+                          f'The pre-rotation angles are {pre}.')
+
+        return coeffs
+
+    def save_shcfile(self, filepath, *, model=None, leap_year=None):
+        """
+        Save spherical harmonic coefficients to a file in `shc`-format.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of output file `*.shc`.
+        model : {'tdep', 'static'}, optional
+            Choose part of the model to save (default is 'tdep').
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+
+        """
+
+        model = 'tdep' if model is None else model
+
+        if model not in ('tdep', 'static'):
+            raise ValueError(f'Unknown model "{model}". Use {{tdep, static}}.')
+
+        leap_year = False if leap_year is None else leap_year
+
+        if model == 'tdep':
+
+            if self.model_tdep is None:
+                raise ValueError("Time-dependent internal field coefficients "
+                                 "are missing.")
+
+            nmin = 1
+            nmax = self.model_tdep.nmax
+            order = self.model_tdep.order
+            pieces = self.model_tdep.breaks.size - 1
+            step = max(order - 1, 1)
+            np = pieces if order == 1 else (pieces * step + 1)
+
+            # create header lines
+            header = textwrap.dedent(f"""\
+                # {self.name}
+                # Spherical harmonic coefficients of the time-dependent
+                # internal field from degree {nmin} to {nmax}. Coefficients
+                # (units of nT) are given at {np} points in time and were
+                # extracted from a {order}-order piecewise polynomial. The
+                # break points are every {step} step(s) of the time sequence.
+                """)
+
+            self.model_tdep.to_shc(
+                filepath,
+                leap_year=leap_year,
+                nmin=nmin,
+                header=header
+            )
+
+        # output static field model coefficients
+        if model == 'static':
+
+            if self.model_static is None:
+                raise ValueError("Static internal field coefficients "
+                                 "are missing.")
+
+            nmin = (1 if self.model_tdep is None
+                    else self.model_tdep.nmax + 1)
+            nmax = self.model_static.nmax
+            order = 1
+
+            # create additonal header lines
+            header = textwrap.dedent(f"""\
+                # {self.name}
+                # Spherical harmonic coefficients (units of nT) of the static
+                # internal field model from degree {nmin} to {nmax}. Given at
+                # the first break point.
+                """)
+
+            self.model_static.to_shc(
+                filepath,
+                leap_year=leap_year,
+                nmin=nmin,
+                header=header
+            )
+
+    def save_matfile(self, filepath):
+        """
+        Save CHAOS model to a MAT-file.
+
+        The model must be fully specified as is the case if originally loaded
+        from a MAT-file.
+
+        Parameters
+        ----------
+        filepath : str
+            Path and name of MAT-file that is to be saved.
+
+        """
+
+        # write time-dependent internal field model to matfile
+        if self.model_tdep:
+            self.model_tdep.save_matfile(filepath)
+
+        if self.coeffs_delta:
+            # write time-dependent external field model to matfile
+            q10 = self.coeffs_delta['q10'].reshape((-1, 1))
+            q11 = np.ravel(self.coeffs_delta['q11'])
+            s11 = np.ravel(self.coeffs_delta['s11'])
+            qs11 = np.stack((q11, s11), axis=-1)
+
+            t_break_q10 = self.breaks_delta['q10'].reshape(
+                (-1, 1)).astype(float)
+            t_break_q11 = self.breaks_delta['q11'].reshape(
+                (-1, 1)).astype(float)
+
+            m_sm = np.array([np.mean(q10), np.mean(q11), np.mean(s11)])
+            m_sm = np.append(m_sm, self.coeffs_sm[3:]).reshape((-1, 1))
+
+            m_Dst = self.coeffs_sm[:3].reshape((3, 1))
+
+            # process gsm coefficients
+            m_gsm = self.coeffs_gsm[[0, 3]].reshape((2, 1))
+
+            model_ext = dict(
+                t_break_q10=t_break_q10,
+                q10=q10,
+                t_break_qs11=t_break_q11,
+                qs11=qs11,
+                m_sm=m_sm,
+                m_gsm=m_gsm,
+                m_Dst=m_Dst
+            )
+
+            hdf.write(model_ext, path='/model_ext', filename=filepath,
+                      matlab_compatible=True)
+
+        if self.model_euler:
+            # write Euler angles to matfile for each satellite
+            satellites = tuple([*self.model_euler.keys()])
+
+            t_break_Euler = []  # list of Euler angle breaks for satellites
+            alpha = []  # list of alpha for each satellite
+            beta = []  # list of beta for each satellite
+            gamma = []  # list of gamma for each satellite
+            for satellite in satellites:
+
+                # reduce breaks if start and end are equal
+                breaks = self.model_euler[satellite].breaks
+                if breaks[0] == breaks[-1]:
+                    breaks = breaks[0]
+
+                t_break_Euler.append(breaks.reshape((-1, 1)).astype(float))
+                alpha.append(self.model_euler[satellite].coeffs[
+                    0, :, 0].reshape((-1, 1)).astype(float))
+                beta.append(self.model_euler[satellite].coeffs[
+                    0, :, 1].reshape((-1, 1)).astype(float))
+                gamma.append(self.model_euler[satellite].coeffs[
+                    0, :, 2].reshape((-1, 1)).astype(float))
+
+            # cell array with one element for each satellite
+            def to_cell(arrays):
+                cell = np.empty((len(arrays),), dtype=object)
+                for k, array in enumerate(arrays):
+                    cell[k] = array
+                return cell
+
+            hdf.write(to_cell(t_break_Euler),
+                      path='/model_Euler/t_break_Euler/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(to_cell(alpha),
+                      path='/model_Euler/alpha/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(to_cell(beta),
+                      path='/model_Euler/beta/',
+                      filename=filepath, matlab_compatible=True)
+            hdf.write(to_cell(gamma),
+                      path='/model_Euler/gamma/',
+                      filename=filepath, matlab_compatible=True)
+
+        if self.model_cal:
+            # write calibration parameters to matfile for each satellite
+            cal = []
+            for satellite, model in self.model_cal.items():
+                cal.append(model.to_ppdict())
+
+            hdf.write(np.array(cal, dtype=object),
+                      path='/pp_CAL/',
+                      filename=filepath, matlab_compatible=True)
+
+        if self.model_static:
+            # write static internal field model to matfile
+            g = np.ravel(self.model_static.coeffs).reshape((-1, 1))
+
+            hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
+
+        if self.meta:
+            hdf.write(self.meta['params'], path='/params', filename=filepath,
+                      matlab_compatible=True)
+
+        print('CHAOS saved to {}.'.format(
+            os.path.join(os.getcwd(), filepath)))
+
+    @classmethod
+    def from_mat(self, filepath, name=None, satellites=None):
+        """
+        Alternative constructor for creating a :class:`CHAOS` class instance.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to MAT-file containing the CHAOS model.
+        name : str, optional
+            User defined name of the model. Defaults to the filename without
+            the file extension.
+        satellites : list of strings, optional
+            List of satellite names whose Euler angles are stored in the
+            MAT-file. This is needed for correct referencing as this
+            information is not given in the standard CHAOS MAT-file format
+            (defaults to ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
+            'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
+
+        Returns
+        -------
+        model : :class:`CHAOS` instance
+            Fully initialized model.
+
+        Examples
+        --------
+        Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+        directory like this:
+
+        >>> from chaosmagpy import CHAOS
+        >>> model = CHAOS.from_mat('CHAOS-6-x7.mat')
+        >>> print(model)
+
+        See Also
+        --------
+        load_CHAOS_matfile
+
+        """
+
+        return load_CHAOS_matfile(filepath, name=name, satellites=satellites)
+
+    @classmethod
+    def from_shc(self, filepath, *, name=None, leap_year=None):
+        """
+        Alternative constructor for creating a :class:`CHAOS` class instance.
+
+        Parameters
+        ----------
+        filepath : str
+            Path to SHC-file.
+        name : str, optional
+            User defined name of the model. Defaults to ``'CHAOS-<version>'``,
+            where <version> is the default in
+            ``basicConfig['params.version']``.
+        leap_year : {False, True}, optional
+            Take leap year in time conversion into account. By default set to
+            ``False``, so that a conversion factor of 365.25 days per year is
+            used.
+
+        Returns
+        -------
+        model : :class:`CHAOS` instance
+            Class instance with either the time-dependent or static internal
+            part initialized.
+
+        Examples
+        --------
+        Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
+        working directory, containing the coefficients of time-dependent
+        internal part of the CHAOS-6-x7 model.
+
+        >>> import chaosmagpy as cp
+        >>> model = cp.CHAOS.from_shc('CHAOS-6-x7_tdep.shc')
+        >>> print(model)
+
+        See Also
+        --------
+        load_CHAOS_shcfile
+
+        """
+
+        leap_year = False if leap_year is None else leap_year
+
+        return load_CHAOS_shcfile(filepath, name=name, leap_year=leap_year)
+
+
+def load_CHAOS_matfile(filepath, name=None, satellites=None):
+    """
+    Load CHAOS model from MAT-file.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to MAT-file containing the CHAOS model.
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+    satellites : list of strings, optional
+        List of satellite names whose Euler angles are stored in the MAT-file.
+        This is needed for correct referencing as this information is not
+        given in the standard CHAOS MAT-file format (defaults to
+        ``['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
+        'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']``.)
+
+    Returns
+    -------
+    model : :class:`CHAOS` instance
+        Fully initialized model.
+
+    Examples
+    --------
+    Load for example the MAT-file ``CHAOS-6-x7.mat`` in the current working
+    directory like this:
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.CHAOS.from_mat('CHAOS-6-x7.mat')
+    >>> print(model)
+
+    Compute the Gauss coefficients of the time-dependent internal field on
+    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
+    date:
+
+    >>> cp.data_utils.mjd2000(2018, 1, 1)
+    6575.0
+
+    Now, compute the Gauss coefficients:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575.)
+    >>> coeffs
+    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
+
+    Compute only the dipolar part by restricting the spherical harmonic degree
+    with the help of the ``nmax`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
+    >>> coeffs
+    array([-29417.21325337,  -1466.70696158,   4705.96297947])
+
+    Compute the first time derivative of the internal Gauss coefficients in
+    nT/yr with the help of the ``deriv`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
+    >>> coeffs
+    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
+
+    Compute values of the time-dependent internal magnetic field on
+    January 1, 2018 at 0:00 UTC at
+    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
+    (:math:`r=6371.2` km):
+
+    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
+6575., 6371.2, 90., 0.)
+    >>> B_theta
+    array(-27642.31732596)
+
+    See Also
+    --------
+    CHAOS, load_CHAOS_shcfile
+
+    """
+
+    filepath = str(filepath)
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    # define satellite names
+    if satellites is None:
+        satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
+                      'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)  # do not modify the input list
+
+    mat_contents = du.load_matfile(filepath)
+
+    pp = mat_contents['pp']
+
+    order = int(pp['order'])
+    pieces = int(pp['pieces'])
+    dim = int(pp['dim'])
+    breaks = pp['breaks']
+    coefs = pp['coefs']
+
+    # reshaping coeffs_tdep from 2-D to 3-D: (order, pieces, coefficients)
+    coeffs_tdep = coefs.transpose().reshape((order, pieces, dim))
+
+    # load the static internal field model
+    try:
+        coeffs_static = mat_contents['g'].reshape((1, 1, -1))
+
+    except KeyError as err:
+        warnings.warn(f'Missing static internal field coefficients: {err}')
+        coeffs_static = None
+
+    # load the external field model
+    try:
+        model_ext = mat_contents['model_ext']
+
+    except KeyError as err:
+        warnings.warn(f'Missing external field coefficients: {err}')
+        coeffs_delta = None
+        breaks_delta = None
+        coeffs_gsm = None
+        coeffs_sm = None
+
+    else:
+        # external field (SM): n=1, 2 (n=1 are sm offset time averages!)
+        coeffs_sm = np.copy(model_ext['m_sm'])
+        coeffs_sm[:3] = model_ext['m_Dst']  # replace with m_Dst
+
+        # external field (GSM): n=1, 2
+        n_gsm = int(2)
+        coeffs_gsm = np.zeros((n_gsm*(n_gsm+2),))  # correct number of coeffs
+        # only m=0 are non-zero
+        coeffs_gsm[[0, 3]] = model_ext['m_gsm']
+
+        # coefficients and breaks of external SM offsets for q10, q11, s11
+        breaks_delta = dict()
+        breaks_delta['q10'] = model_ext['t_break_q10']
+        breaks_delta['q11'] = model_ext['t_break_qs11']
+        breaks_delta['s11'] = model_ext['t_break_qs11']
+
+        # reshape to comply with scipy PPoly coefficients
+        coeffs_delta = dict()
+        coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
+        qs11 = model_ext['qs11'].reshape((-1, 2))
+        coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
+        coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
+
+    # load euler angles
+    try:
+        model_euler = mat_contents['model_Euler']
+
+    except KeyError as err:
+        warnings.warn(f'Missing Euler angles: {err}')
+        coeffs_euler = None
+        breaks_euler = None
+
+    else:
+        # cell array of a single satellite has been reduced to its element
+        def from_cell(cell):
+            return cell if np.asarray(cell).dtype == object else [cell]
+
+        # append generic satellite name if more data available or reduce
+        t_break_Euler = from_cell(model_euler['t_break_Euler'])
+        n = len(t_break_Euler)
+        m = len(satellites)
+
+        if n < m:
+            satellites = satellites[:n]
+        elif n > m:
+            for counter in range(m+1, n+1):
+                satellites.append(f'satellite_{counter}')
+
+        # coefficients and breaks of euler angles
+        breaks_euler = dict()
+        for num, satellite in enumerate(satellites):
+            breaks_euler[satellite] = t_break_Euler[num].squeeze()
+
+        coeffs_euler = dict()
+        for num, satellite in enumerate(satellites):
+
+            angles = [np.reshape(from_cell(model_euler[angle])[num], (-1, 1))
+                      for angle in ['alpha', 'beta', 'gamma']]
+            euler = np.concatenate(angles, axis=-1).astype(float)
+
+            # first: order, second: number of intervals, third: 3 angles
+            coeffs_euler[satellite] = np.expand_dims(euler, axis=0)
+
+    # load calibration parameters
+    try:
+        model_cal = mat_contents['pp_CAL']
+
+    except KeyError as err:
+        warnings.warn(f'Missing calibration parameters: {err}')
+        breaks_cal = None
+        coeffs_cal = None
+
+    else:
+        # only support of single satellite
+        breaks_cal = {'cryosat-2_1': model_cal['breaks']}
+        coeffs_cal = {'cryosat-2_1': model_cal['coefs'].reshape((1, -1, 9))}
+
+    # load additional parameters
+    try:
+        params = mat_contents['params']
+        prerotation = params['Euler_prerotation']
+        if np.shape(prerotation) == (3,):  # angles of a single satellite
+            prerotation = np.reshape(prerotation, (1, 3))
+        dict_params = {'Euler_prerotation': prerotation}
+
+    except KeyError as err:
+        warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
+        dict_params = {'Euler_prerotation': None}
+
+    meta = dict(params=dict_params,
+                satellites=tuple(satellites))
+
+    model = CHAOS(breaks=breaks,
+                  order=order,
+                  coeffs_tdep=coeffs_tdep,
+                  coeffs_static=coeffs_static,
+                  coeffs_sm=coeffs_sm,
+                  coeffs_gsm=coeffs_gsm,
+                  breaks_delta=breaks_delta,
+                  coeffs_delta=coeffs_delta,
+                  breaks_euler=breaks_euler,
+                  coeffs_euler=coeffs_euler,
+                  breaks_cal=breaks_cal,
+                  coeffs_cal=coeffs_cal,
+                  name=name,
+                  meta=meta)
+
+    return model
+
+
+def load_CHAOS_shcfile(filepath, name=None, leap_year=None):
+    """
+    Load CHAOS model from SHC-file.
+
+    The file should contain the coefficients of the time-dependent or static
+    internal part of the CHAOS model. In case of the time-dependent part, a
+    reconstruction of the piecewise polynomial is performed.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to SHC-file.
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+    leap_year : {False, True}, optional
+        Take leap year in time conversion into account. By default set to
+        ``False``, so that a conversion factor of 365.25 days per year is
+        used.
+
+    Returns
+    -------
+    model : :class:`CHAOS` instance
+        Class instance with either the time-dependent or static internal part
+        initialized.
+
+    Examples
+    --------
+    Load for example the SHC-file ``CHAOS-6-x7_tdep.shc`` in the current
+    working directory, containing the coefficients of time-dependent internal
+    part of the CHAOS-6-x7 model.
+
+    >>> import chaosmagpy as cp
+    >>> model = cp.load_CHAOS_shcfile('CHAOS-6-x7_tdep.shc')
+    >>> print(model)
+
+    Compute the Gauss coefficients of the time-dependent internal field on
+    January 1, 2018 at 0:00 UTC. First, convert the date to modified Julian
+    date:
+
+    >>> cp.data_utils.mjd2000(2018, 1, 1)
+    6575.0
+
+    Now, compute the Gauss coefficients:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575.)
+    >>> coeffs
+    array([-2.94172133e+04, -1.46670696e+03, ..., -8.23461504e-02])
+
+    Compute only the dipolar part by restricting the spherical harmonic degree
+    with the help of the ``nmax`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., nmax=1)
+    >>> coeffs
+    array([-29417.21325337,  -1466.70696158,   4705.96297947])
+
+    Compute the first time derivative of the internal Gauss coefficients in
+    nT/yr with the help of the ``deriv`` keyword argument:
+
+    >>> coeffs = model.synth_coeffs_tdep(6575., deriv=1)  # nT/yr
+    >>> coeffs
+    array([ 6.45476360e+00,  8.56693199e+00, ..., 1.13856347e-03])
+
+    Compute values of the time-dependent internal magnetic field on
+    January 1, 2018 at 0:00 UTC at
+    :math:`(\\theta, \\phi) = (90^\\circ, 0^\\circ)` on Earth's surface
+    (:math:`r=6371.2` km):
+
+    >>> B_radius, B_theta, B_phi = model.synth_values_tdep(\
+6575., 6371.2, 90., 0.)
+    >>> B_theta
+    array(-27642.31732596)
+
+    See Also
+    --------
+    CHAOS, load_CHAOS_matfile
+
+    """
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    leap_year = False if leap_year is None else bool(leap_year)
+
+    # create dummy BaseModel since there is no entry point to directly modify
+    # CHAOS.model_tdep or CHAOS.model_static at the moment
+    model = BaseModel.from_shc(filepath, name=name, leap_year=leap_year)
+
+    if (model.pieces == 1) and (model.order == 1):  # static in single bin
+
+        return CHAOS(
+            breaks=model.breaks,
+            coeffs_static=model.coeffs,
+            name=model.name
+        )
+
+    else:  # must be time-dependent, incl. piecewise constant
+
+        return CHAOS(
+            breaks=model.breaks,
+            order=model.order,
+            coeffs_tdep=model.coeffs,
+            name=model.name
+        )
+
+
+def load_CovObs_txtfile(filepath, name=None):
+    """
+    Load the ensemble mean of the internal model from the COV-OBS
+    TXT-file in spline format.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to spline-formatted TXT-file (not part of ChaosMagPy).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    For details on the COV-OBS model (COV-OBS.x2), see the original
+    publication:
+
+    Huder, L., Gillet, N., Finlay, C. C., Hammer, M. D. and H. Tchoungui
+    (2020), "COV-OBS.x2: 180 yr of geomagnetic field evolution from
+    ground-based and satellite observations", Earth, Planets and Space.
+
+    Examples
+    --------
+    Load the ensemble mean internal model and plot the degree-1 secular
+    variation. Here, the model parameter file, e.g. "COV-OBS.x2-int", is in
+    the current working directory.
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_CovObs_txtfile('COV-OBS.x2-int')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        # sample model timespan
+        time = np.linspace(1840., 2020., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
+
+        ax.plot(cp.data_utils.timestamp(time), coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('Time (years)')
+        ax.set_ylabel('nT/yr')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.readlines()
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    tmp = np.fromstring(lines[1], sep=' ')  # read parameters and breaks
+
+    nmax = int(tmp[0])
+    order = int(tmp[2])
+    degree = order - 1  # polynomial degree
+
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)
+
+    # add endpoint multiplicity to conform with scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    data = np.fromstring(' '.join(lines[2:]), sep=' ')
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data.reshape(
+        (breaks.size - order, nmax * (nmax + 2)))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_gufm1_txtfile(filepath, name=None):
+    """
+    Load model parameter file of the gufm1 model.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to TXT-file (provided by the modellers).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    For details on the gufm1 model, see the original publication:
+
+    Andrew Jackson, Art R. T. Jonkers and Matthew R. Walker (2000),
+    "Four centuries of geomagnetic secular variation from historical records",
+    Phil. Trans. R. Soc. A.358957–990, http://doi.org/10.1098/rsta.2000.0569
+
+    Examples
+    --------
+    Load the model and plot the degree-1 secular variation. Here, the
+    model parameter file, e.g. "gufm1", is in the current working directory.
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_gufm1_txtfile('gufm1')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        # sample model timespan 7.5 years away from endpoints
+        time = np.linspace(1590., 1990., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1, deriv=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('Time (years)')
+        ax.set_ylabel('nT/yr')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.readlines()
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    data = np.fromstring('  '.join(lines[1:]), sep=' ')
+
+    nmax = int(data[0])
+    order = 4  # hard-coded since not really provided in file
+    nbreaks = int(data[1]) + order  # data[1] is number of B-spline functions?
+    degree = order - 1  # polynomial degree
+
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(data[2:(nbreaks + 2)], leap_year=False)
+
+    # add endpoint multiplicity to "trick" scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(
+        (breaks.size - order, nmax * (nmax + 2)))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_CALS7K_txtfile(filepath, name=None):
+    """
+    Load the model parameter file of the CALS7K model.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to TXT-file (available from the modellers).
+    name : str, optional
+        User defined name of the model. Defaults to the filename.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    More information about the model and a list of relevant publications can be
+    found at `<https://igppweb.ucsd.edu/~cathy/Projects/Holocene/CALS7K/>`_.
+    The model coefficients file can be downloaded from
+    `<https://earthref.org/ERDA/413/>`_.
+
+    Examples
+    --------
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_CALS7K_txtfile('CALS7K.2')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        time = np.linspace(-5000., 1950., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=False)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('years')
+        ax.set_ylabel('nT')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    with open(filepath, 'r') as f:
+        lines = f.read()  # read everything as a continuous string
+
+    if name is None:
+        # get name with extension
+        name = os.path.basename(filepath)
+
+    # numpy doesn't understand "D" in decimal representation, replace with E
+    data = np.fromstring(lines.replace('D', 'E'), sep=' ', dtype=float)
+
+    # ts = data[0]  # start time
+    # te = data[1]  # end time
+    order = data[2]  # cubic B-splines
+    # discard index 3
+    nmax = int(data[4])  # maximum spherical harmonic degree
+    # discard index 5
+    inspl = int(data[6])  # number of inner B-spline segments
+
+    dim = nmax*(nmax+2)  # number of spherical harmonic coefficients
+    order = 4  # cubic splines
+    degree = order - 1  # polynomial degree
+    nbreaks = inspl + order  # number of breaks
+
+    breaks = data[7:(7+nbreaks)]
+    # convert decimal year to modified Julian date (using 365.25 days/year)
+    breaks = du.dyear_to_mjd(breaks, leap_year=False)
+
+    # add endpoint multiplicity to "trick" scipy's BSpline routine
+    knots = mu.augment_breaks(breaks, order)
+
+    # add zeros at endpoints to match manually extended knots
+    coeffs = np.zeros((knots.size - order, dim))
+
+    # insert actual coefficients, endpoint coefficients are now zero
+    coeffs[degree:-degree, :] = data[(7+nbreaks):].reshape(
+        (breaks.size - order, dim))
+
+    return BaseModel.from_bspline(name, knots, coeffs, order,
+                                  source='internal')
+
+
+def load_IGRF_txtfile(filepath, name=None):
+    """
+    Load the IGRF internal field model from the TXT-file with the
+    piecewise-polynomial coefficients.
+
+    Parameters
+    ----------
+    filepath : str
+        Path to the IGRF TXT-file (not part of ChaosMagPy).
+    name : str, optional
+        User defined name of the model. Defaults to the filename without the
+        file extension.
+
+    Returns
+    -------
+    model : :class:`BaseModel`
+        Class :class:`BaseModel` instance.
+
+    References
+    ----------
+    The latest IGRF coefficients can be downloaded at
+    `<https://www.ncei.noaa.gov/products/international-geomagnetic-reference-field>`_.
+
+    Notes
+    -----
+    The field is linearly extrapolated in the 5-year period at the
+    end of the model time interval (i.e. in the period 2020-2025 for IGRF-13)
+    using the predictive secular variation in the IGRF.
+
+    Examples
+    --------
+
+    .. code-block:: python
+
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+        import numpy as np
+
+        model = cp.load_IGRF_txtfile('irgf13coeffs.txt')  # load model TXT-file
+
+        fig, ax = plt.subplots(1, 1, figsize=(10, 6))
+
+        time = np.linspace(1900., 2020., 1000)  # decimal years
+        mjd = cp.data_utils.dyear_to_mjd(time, leap_year=True)
+
+        coeffs = model.synth_coeffs(mjd, nmax=1)
+
+        ax.plot(time, coeffs)
+        ax.set_title(model.name)
+        ax.set_xlabel('years')
+        ax.set_ylabel('nT')
+
+        ax.legend(['$g_1^0$', '$g_1^1$', '$h_1^1$'])
+
+        plt.tight_layout()
+        plt.show()
+
+    """
+
+    if name is None:
+        # get name without extension
+        name = os.path.splitext(os.path.basename(filepath))[0]
+
+    first_line = True
+    data = np.array([])
+
+    with open(filepath, 'r') as f:
+        for line in f.readlines():
+
+            if line.lstrip().startswith(('#', 'c/s')):
+                continue
+
+            tmp = line.split()  # also splits consecutive whitespaces
+
+            if first_line:  # first non-comment line contains breaks
+                breaks = np.array(tmp[3:-1], dtype=float)
+                breaks = np.append(breaks, breaks[-1] + 5.)
+
+                first_line = False
+
+            else:
+                newline = np.array(tmp[3:], dtype=float)  # strip degree/order
+                data = np.append(data, newline)
+
+    data = np.reshape(data, (-1, breaks.size))
+    data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
+    coeffs = data.T
+
+    order = 2
+    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=True)
+    knots = mu.augment_breaks(breaks_mjd, order)
+
+    model = BaseModel.from_bspline(name, knots, coeffs, order,
+                                   source='internal')
+
+    return model
diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d8732b4..cac8d24 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1,1171 +1,1171 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.model_utils` provides functions for analyzing and estimating
-geomagnetic field models in general, and the CHAOS geomagnetic field model in
-particular.
-
-.. autosummary::
-    :toctree: functions
-
-    design_matrix
-    design_gauss
-    colloc_matrix
-    augment_breaks
-    pp_from_bspline
-    synth_from_pp
-    synth_values
-    legendre_poly
-    power_spectrum
-    degree_correlation
-    sensitivity
-
-"""
-
-import numpy as np
-import warnings
-from scipy.interpolate import BSpline, PPoly
-from . import config_utils
-
-
-def design_matrix(knots, order, n_tdep, time, radius, theta, phi,
-                  n_static=None, source=None):
-    """
-    Returns matrices that connect radial, colatitude and azimuthal field
-    components on a grid with `radius`, `theta` (colatitude) and `phi`
-    to the spherical harmonics expansion of a potential.
-
-    The potential is time-dependent on large length-scales (`n` <= `n_tdep`)
-    and static on small length-scales (`n_tdep` < `n` <= `n_static`). The
-    time-dependent part uses a B-spline representation of order `k`.
-
-    Parameters
-    ----------
-    knots : ndarray, shape >= (k+1,)
-        Knot vector with adequate endpoint multiplicity.
-    order : int, positive
-        Order `k` of B-spline basis functions (4 = cubic).
-    n_tdep : int, positive
-        Maximum degree of the time-dependent field.
-    time : ndarray, shape (N,)
-        Time vector of the `N` data points in days.
-    radius : ndarray, shape (N,)
-        Radius vector of the `N` data points in kilometers.
-    theta : ndarray, shape (N,)
-        Data colatitude vector in degrees :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (N,)
-        Data longitude vector in degrees.
-    n_static : int, positive, optional
-        Maximum degree of static field (default is ``None``,
-        `n_static` > `n_tdep`).
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is internal).
-
-    Returns
-    -------
-    G_radius, G_theta, G_phi : ndarray, shape (N, ...)
-        Forward matrix for :math:`B_r`, :math:`B_{\\theta}` and
-        :math:`B_{\\phi}`.
-
-    Raises
-    ------
-    ValueError
-        If degree of static field is smaller than the degree of the time-dep.
-        field. In order to exclude the static field and obtain a purely
-        time-dependent potential, use optional argument ``n_static=None`` or
-        leave out completely.
-
-    See Also
-    --------
-    design_gauss
-
-    """
-
-    assert time.shape == radius.shape == theta.shape == phi.shape
-    assert time.ndim == 1
-    assert np.amin(theta) > 0. and np.amax(theta) < 180.
-
-    n_data = time.size  # number of data points
-
-    if n_static:
-        if n_static < n_tdep:
-            raise ValueError("Degree of static field must be greater than "
-                             "degree of time-dependent field.")
-        elif n_static == n_tdep:
-            warnings.warn("Static and time-dependent field are of same "
-                          "degree. Ignoring static field.")
-
-    if n_static is None:
-        n_static = n_tdep
-
-    if source is None:
-        source = 'internal'
-
-    n_coeff_tdep = n_tdep * (n_tdep + 2)  # number of t-dep field coefficients
-    n_coeff_static = n_static * (n_static + 2)  # number of static field coeff
-
-    # compute matrices that connect harmonics expansion with field values
-    A_radius, A_theta, A_phi = design_gauss(radius, theta, phi,
-                                            nmax=n_static, source=source)
-
-    # compute collocation matrix of B-spline segments
-    collmat = colloc_matrix(time, knots, order)
-    n_segment = collmat.shape[1]  # number of B-spline basis functions
-
-    # allocate memory for output matrices
-    G_radius = np.empty((n_data, (n_segment - 1)*n_coeff_tdep
-                        + n_coeff_static))
-    G_theta = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
-    G_phi = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
-
-    n_col = 0  # counter for columns
-    for coeff in range(n_coeff_tdep):
-        # for each time-dependent expansion coefficient, multiply with
-        # collocation matrix use broadcasting to match shapes
-        G_radius[:, n_col:n_col+n_segment] = A_radius[:, coeff, None] * collmat
-        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff, None] * collmat
-        G_phi[:, n_col:n_col+n_segment] = A_phi[:, coeff, None] * collmat
-
-        n_col += n_segment
-
-    # add static background field
-    G_radius[:, n_col:] = A_radius[:, n_coeff_tdep:n_coeff_static]
-    G_theta[:, n_col:] = A_theta[:, n_coeff_tdep:n_coeff_static]
-    G_phi[:, n_col:] = A_phi[:, n_coeff_tdep:n_coeff_static]
-
-    return G_radius, G_theta, G_phi
-
-
-def colloc_matrix(x, knots, order, deriv=None):
-    """
-    Create collocation matrix of a univariate function on `x` in terms  of a
-    B-spline representation of order `k`.
-
-    The computation of the splines is based on the scipy-package.
-
-    Parameters
-    ----------
-    x : ndarray, shape (N,)
-        `N` points to evaluate the B-spline at.
-    knots : ndarray, shape >= (k+1,)
-        Vector of knots derived from breaks (with appropriate endpoint
-        multiplicity).
-    order : int, positive
-        Order `k` of the B-spline (4 = cubic).
-    deriv: int, positive, optional
-        Derivative of the B-spline partition (defaults to 0).
-
-    Returns
-    -------
-    collmat : ndarray, shape (N, n-k)
-        Collocation matrix, `n` is the size of `knots`.
-
-    See Also
-    --------
-    augment_breaks
-
-    """
-
-    if deriv is None:
-        deriv = 0
-
-    if deriv >= order:
-        return np.zeros((max(x.size, 1), knots.size - order))
-
-    else:
-        # create spline using scipy.interpolate
-        coll = np.empty((max(x.size, 1), knots.size - order))
-
-        for n in range(knots.size - order):
-            c = np.zeros(knots.size - order)
-            c[n] = 1.
-
-            b = BSpline.construct_fast(knots, c, order-1, extrapolate=False)
-
-            coll[:, n] = b(x, nu=deriv)
-
-        return coll
-
-
-def augment_breaks(breaks, order):
-    """
-    Augment a vector of break points and return the knot vector for a
-    B-spline representation of order `k`.
-
-    Parameters
-    ----------
-    breaks: ndarray, shape (n,)
-        1-D array, containing `n` break points (without endpoint repeats).
-    order: int, positive
-        Order `k` of B-spline (4 = cubic).
-
-    Returns
-    -------
-    knots: ndarray, shape (n+2k-2,)
-        1-D array with `k`-times repeated copies of the `breaks`-vector
-        endpoints ``breaks[0]`` and ``breaks[-1]``.
-
-    """
-
-    if isinstance(breaks, np.ndarray) and breaks.ndim > 1:
-        raise ValueError("Breaks must be a 1-D array.")
-
-    degree = order - 1
-    return np.array([breaks[0]]*degree + list(breaks) + [breaks[-1]]*degree)
-
-
-def pp_from_bspline(coeffs, knots, order):
-    """
-    Return a piecewise polynomial from a BSpline representation.
-
-    Parameters
-    ----------
-    coeffs : ndarray, shape (M, D)
-        Bspline coefficients for the `M` B-splines parameterizing
-        `D` dimensions.
-    knots : ndarray, shape (N,)
-        B-spline knots. The knots must have the full endpoint multiplicity.
-        Zero-pad spline coefficients if needed.
-    order : int
-        Order of the B-spline.
-
-    Returns
-    -------
-    coeffs_pp : ndarray, shape (K, P, D)
-        Coefficients of the piecewise polynomial where `K` is the order
-        (``order``), `P` is the number of pieces and `D` is the dimension.
-    breaks : ndarray, shape (P+1,)
-        Break points of the piecewise polynomial.
-
-    """
-
-    degree = order - 1
-    breaks = np.unique(knots)
-    pieces = breaks.size - 1
-    dim = coeffs.shape[-1]
-
-    coeffs_pp = np.empty((order, pieces, dim))
-
-    # have to do it manually for each dimension
-    for d in range(dim):
-
-        bs = BSpline(knots, coeffs[:, d], degree)
-        pp = PPoly.from_spline(bs, extrapolate=False)
-
-        # remove the empty pieces due to knot multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, np.diff(pp.x) > 0.]
-
-    return coeffs_pp, breaks
-
-
-def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
-                  nmax=None, source=None, deriv=None, grid=None):
-    """
-    Compute radial, colatitude and azimuthal field components from the magnetic
-    potential in terms of a spherical harmonic expansion in form of a
-    piecewise polynomial.
-
-    Parameters
-    ----------
-    breaks : ndarray, shape (m+1,)
-        1-D array, containing `m+1` break points (without endpoint repeats) for
-        `m` intervals.
-    order : int, positive
-        Order `k` of piecewise polynomials (4 = cubic).
-    coeffs : ndarray, shape (k, m, nmax*(nmax+2))
-        Coefficients of the piecewise polynomials, where `m` is the number of
-        polynomial pieces. The trailing dimension is equal to the number of
-        expansion coefficients for each interval.
-    time : ndarray, shape (...)
-        Array containing the time in days.
-    radius : ndarray, shape (...) or float
-        Array containing the radius in kilometers.
-    theta : ndarray, shape (...) or float
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (...) or float
-        Array containing the longitude in degrees.
-    nmax : int, positive, optional
-        Maximum degree harmonic expansion (default is given by ``coeffs``,
-        but can also be smaller, if specified).
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-    deriv : int, positive, optional
-        Derivative to be taken (default is 0).
-    grid : bool, optional
-        If ``True``, field components are computed on a regular grid. Arrays
-        ``theta`` and ``phi`` must have one dimension less than the output grid
-        since the grid will be created as their outer product.
-
-    Returns
-    -------
-    B_radius, B_theta, B_phi : ndarray, shape (...)
-        Radial, colatitude and azimuthal field components.
-
-    See Also
-    --------
-    synth_values
-
-    """
-
-    # handle optional argument: nmax
-    nmax_coeffs = int(np.sqrt(coeffs.shape[-1] + 1) - 1)  # degree for coeffs
-    if nmax is None:
-        nmax = nmax_coeffs
-    elif nmax > nmax_coeffs:
-        warnings.warn('Input nmax = {0} is incompatible with the number of '
-                      'model coefficients. Using nmax = {1} instead.'.format(
-                        nmax, nmax_coeffs))
-        nmax = nmax_coeffs
-
-    # handle optional argument: source
-    source = 'internal' if source is None else source
-
-    # compute SH coefficients from pp-form and take derivatives if needed
-    deriv = 0 if deriv is None else deriv
-
-    # set grid option to false
-    grid = False if grid is None else grid
-
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
-
-    PP = PP.derivative(nu=deriv)
-    gauss_coeffs = PP(time) * 365.25**deriv
-
-    B_radius, B_theta, B_phi = synth_values(
-        gauss_coeffs, radius, theta, phi, nmax=nmax, source=source, grid=grid)
-
-    return B_radius, B_theta, B_phi
-
-
-def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
-                 mmax=None, source=None, grid=None):
-    """
-    Computes radial, colatitude and azimuthal field components from the
-    magnetic potential field in terms of spherical harmonic coefficients.
-
-    Parameters
-    ----------
-
-    coeffs : ndarray, shape (..., M)
-        Coefficients of the spherical harmonic expansion. The last dimension is
-        equal to the number of coefficients.
-    radius : float or ndarray, shape (...)
-        Array containing the radius in kilometers.
-    theta : float or ndarray, shape (...)
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : float or ndarray, shape (...)
-        Array containing the longitude in degrees.
-    nmax : int, positive, optional
-        Maximum degree up to which expansion is to be used (default is given by
-        the last dimension of ``coeffs``, that is, ``M = nmax(nmax+2)``). This
-        value can also be smaller if only coefficients at low degree should
-        contribute.
-    nmin : int, positive, optional
-        Minimum degree of the expansion (defaults to 1). This value must
-        correspond to the minimum degree of the coefficients and cannot be
-        larger.
-    mmax : int, positive, optional
-        Maximum order of the spherical harmonic expansion (defaults to
-        ``nmax``). This value can also be smaller. For example, if only the
-        zonal part of the expansion should be used, set ``mmax = 0``.
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-    grid : bool, optional
-        If ``True``, field components are computed on a regular grid. Arrays
-        ``theta`` and ``phi`` must have one dimension less than the output grid
-        since the grid will be created as their outer product (defaults to
-        ``False``).
-
-    Returns
-    -------
-    B_radius, B_theta, B_phi : ndarray, shape (...)
-        Radial, colatitude and azimuthal field components.
-
-    Warnings
-    --------
-    The function can also evaluate the field components at the geographic
-    poles, i.e. where ``theta == 0.`` or ``theta == 180.``. However, users
-    should be careful when doing this because the vector basis for spherical
-    geocentric coordinates,
-    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
-    depends on longitude, which is not well defined at the poles. That is,
-    at the poles, any value for the longitude maps to the same location in
-    euclidean coordinates but gives a different vector basis in spherical
-    geocentric coordinates. Nonetheless, by choosing a specific value for the
-    longitude at the poles, users can define the vector basis, which then
-    establishes the meaning of the spherical geocentric components returned by
-    this function. The vector basis for the horizontal components is defined as
-
-    .. math::
-
-        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
-            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
-        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
-            \\cos\\phi\\mathbf{e}_y
-
-    Hence, at the geographic north pole as given by ``theta = 0.`` and
-    ``phi = 0.`` (user input), the returned component ``B_theta``
-    will be along the direction :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and
-    ``B_phi`` along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
-    if ``phi = 180.`` is chosen, ``B_theta``
-    will be along :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``B_phi``
-    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
-
-    Notes
-    -----
-    The function can work with different grid shapes, but the inputs have to
-    satisfy NumPy's `broadcasting rules \\
-    <https://docs.scipy.org/doc/numpy-1.15.0/user/basics.broadcasting.html>`_
-    (``grid=False``, default). This also applies to the dimension of the
-    coefficients ``coeffs`` excluding the last dimension.
-
-    The optional parameter ``grid`` is for convenience. If set to ``True``,
-    a singleton dimension is appended (prepended) to ``theta`` (``phi``)
-    for broadcasting to a regular grid. The other inputs ``radius`` and
-    ``coeffs`` must then be broadcastable as before but now with the resulting
-    regular grid.
-
-    Examples
-    --------
-    The most straight forward computation uses a fully specified grid. For
-    example, compute the magnetic field at :math:`N=50` grid points on the
-    surface.
-
-    .. code-block:: python
-
-      import chaosmagpy.model_utils as cpm
-      import numpy as np
-
-      N = 50
-      coeffs = np.ones((3,))  # degree 1 coefficients for all points
-      radius = 6371.2 * np.ones((N,))  # radius of 50 points in km
-      phi = np.linspace(-180., 180., num=N)  # azimuth of 50 points in deg.
-      theta = np.linspace(0., 180., num=N)  # colatitude of 50 points in deg.
-
-      B = cpm.synth_values(coeffs, radius, theta, phi)
-      print([B[num].shape for num in range(3)])  # output shape (N,)
-
-    Instead of `N` points, compute the field on a regular
-    :math:`N\\times N`-grid in azimuth and colatitude (slow).
-
-    .. code-block:: python
-
-      radius_grid = 6371.2 * np.ones((N, N))
-      phi_grid, theta_grid = np.meshgrid(phi, theta)  # grid of shape (N, N)
-
-      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    But this is slow since some computations on the grid are repeatedly done.
-    The preferred method is to use NumPy's broadcasting rules (fast).
-
-    .. code-block:: python
-
-      radius_grid = 6371.2  # float, () or (1,)-shaped array broadcasted to NxN
-      theta_grid = theta[:, None]  # append singleton: (N, 1)
-      phi_grid = phi[None, :]  # prepend singleton: (1, N)
-
-      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    For convenience, you can do the same by using ``grid=True`` option, which
-    appends a singleton dimension to ``theta`` and inserts a singleton
-    dimension at the second to last position in the shape of ``phi``.
-
-    .. code-block:: python
-
-      B = cpm.synth_values(coeffs, radius_grid, theta, phi, grid=True)
-      print([B[num].shape for num in range(3)])  # output shape (N, N)
-
-    Remember that ``grid=False`` (default) will result in
-    (N,)-shaped outputs as in the first example.
-
-    """
-
-    # ensure ndarray inputs
-    coeffs = np.asarray(coeffs, dtype=float)
-    radius = (np.asarray(radius, dtype=float)
-              / config_utils.basicConfig['params.r_surf'])
-    theta = np.asarray(theta, dtype=float)
-    phi = np.asarray(phi, dtype=float)
-
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
-
-    if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min >= 0.0) and (theta_max <= 180.0):
-            warnings.warn('Input coordinates include the poles.')
-            poles = True
-        else:
-            raise ValueError('Colatitude outside bounds [0, 180].')
-    else:
-        poles = False
-
-    nmin = 1 if nmin is None else int(nmin)
-    assert nmin > 0, 'The value of "nmin" must be greater than zero.'
-
-    dim = coeffs.shape[-1]
-
-    # handle nmax and mmax
-    if (nmax is None) and (mmax is None):
-        nmax = int(np.sqrt(dim + nmin**2) - 1)
-        mmax = nmax
-
-    elif mmax is None:  # but nmax given
-        mmax = nmax
-
-    elif nmax is None:  # but mmax given
-
-        if mmax >= (nmin-1):
-            nmax = int((dim - mmax*(mmax+2) + nmin**2 - 1) / (2*mmax+1) + mmax)
-
-        else:
-            nmax = int(dim / (2*mmax+1) + nmin - 1)
-
-    if nmax < nmin:
-        raise ValueError(f'Nothing to compute: nmax ({nmax}) < nmin ({nmin}).')
-
-    # handle optional argument: source
-    if source is None:
-        source = 'internal'
-
-    # handle grid option
-    grid = False if grid is None else grid
-
-    # manually broadcast input grid on surface
-    if grid:
-        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension
-        phi = np.expand_dims(phi, axis=-2)  # insert singleton before last
-
-    # get shape of broadcasted result
-    try:
-        b = np.broadcast(
-            radius, theta, phi, np.broadcast_to(0, coeffs.shape[:-1]))
-
-    except ValueError:
-        print('Cannot broadcast grid shapes (excl. last dimension of coeffs):')
-        print(f'radius: {radius.shape}')
-        print(f'theta:  {theta.shape}')
-        print(f'phi:    {phi.shape}')
-        print(f'coeffs: {coeffs.shape[:-1]}')
-        raise
-
-    grid_shape = b.shape
-
-    # initialize radial dependence given the source
-    if source == 'internal':
-        r_n = radius**(-(nmin+2))
-    elif source == 'external':
-        r_n = radius**(nmin-1)
-    else:
-        raise ValueError("Source must be either 'internal' or 'external'.")
-
-    # compute associated Legendre polynomials as (n, m, theta-points)-array
-    Pnm = legendre_poly(nmax, theta)
-
-    # save sinth for fast access
-    sinth = Pnm[1, 1]
-
-    # find the poles
-    if poles:
-        where_poles = (theta == 0.) | (theta == 180.)
-
-    # convert phi to radians
-    phi = np.radians(phi)
-
-    # allocate arrays in memory
-    B_radius = np.zeros(grid_shape)
-    B_theta = np.zeros(grid_shape)
-    B_phi = np.zeros(grid_shape)
-
-    num = 0
-    for n in range(nmin, nmax+1):
-
-        if source == 'internal':
-            B_radius += (n+1) * Pnm[n, 0] * r_n * coeffs[..., num]
-        else:
-            B_radius += -n * Pnm[n, 0] * r_n * coeffs[..., num]
-
-        B_theta += -Pnm[0, n+1] * r_n * coeffs[..., num]
-
-        num += 1
-        for m in range(1, min(n, mmax)+1):
-
-            cmp = np.cos(m*phi)
-            smp = np.sin(m*phi)
-
-            if source == 'internal':
-                B_radius += ((n+1) * Pnm[n, m] * r_n
-                             * (coeffs[..., num] * cmp
-                                + coeffs[..., num+1] * smp))
-            else:
-                B_radius += -(n * Pnm[n, m] * r_n
-                              * (coeffs[..., num] * cmp
-                                 + coeffs[..., num+1] * smp))
-
-            B_theta += (-Pnm[m, n+1] * r_n
-                        * (coeffs[..., num] * cmp
-                           + coeffs[..., num+1] * smp))
-
-            # need special treatment at the poles because Pnm/sinth = 0/0 for
-            # theta in {0., 180.},
-            # use L'Hopital's rule to take the limit:
-            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
-            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
-            # theta=180.); k = costh = P[1, 0] at poles for convenience
-            if poles:
-                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
-                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
-                div_Pnm[~where_poles] /= sinth[~where_poles]
-            else:
-                div_Pnm = Pnm[n, m] / sinth
-
-            B_phi += (m * div_Pnm * r_n
-                      * (coeffs[..., num] * smp
-                         - coeffs[..., num+1] * cmp))
-
-            num += 2
-
-        if source == 'internal':
-            r_n = r_n / radius  # equivalent to r_n = radius**(-(n+2))
-        else:
-            r_n = r_n * radius  # equivalent to r_n = radius**(n-1)
-
-    return B_radius, B_theta, B_phi
-
-
-def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
-                 source=None):
-    """
-    Computes matrices to connect the radial, colatitude and azimuthal field
-    components to the magnetic potential field in terms of spherical harmonic
-    coefficients (Schmidt quasi-normalized).
-
-    Parameters
-    ----------
-
-    radius : ndarray, shape (...)
-        Array containing the radius in kilometers.
-    theta : ndarray, shape (...)
-        Array containing the colatitude in degrees
-        :math:`[0^\\circ,180^\\circ]`.
-    phi : ndarray, shape (...)
-        Array containing the longitude in degrees.
-    nmax : int, positive
-        Maximum degree of the sphercial harmonic expansion.
-    nmin : int, positive, optional
-        Minimum degree of the sphercial harmonic expansion (defaults to 1).
-    mmax : int, positive, optional
-        Maximum order of the spherical harmonic expansion (defaults to
-        ``nmax``). For ``mmax = 0``, for example, only the zonal terms are
-        returned.
-    source : {'internal', 'external'}, optional
-        Magnetic field source (default is an internal source).
-
-    Returns
-    -------
-    A_radius, A_theta, A_phi : ndarray, shape (..., M)
-        Matrices for radial, colatitude and azimuthal field components. The
-        second dimension ``M`` varies depending on ``nmax``, ``nmin`` and
-        ``mmax``.
-
-    Warnings
-    --------
-    The function can also return the design matrix for the field components at
-    the geographic poles, i.e. where ``theta == 0.`` or ``theta == 180.``.
-    However, users should be careful when doing this because the vector basis
-    for spherical geocentric coordinates,
-    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
-    depends on longitude, which is not well defined at the poles. That is,
-    at the poles, any value for the longitude maps to the same location in
-    euclidean coordinates but gives a different vector basis in spherical
-    geocentric coordinates. Nonetheless, by choosing a specific value for the
-    longitude at the poles, users can define the vector basis, which then
-    establishes the meaning of the spherical geocentric components. The vector
-    basis for the horizontal components is defined as
-
-    .. math::
-
-        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
-            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
-        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
-            \\cos\\phi\\mathbf{e}_y
-
-    Hence, at the geographic north pole as given by ``theta = 0.`` and
-    ``phi = 0.`` (user input), the returned design matrix ``A_theta``
-    will be for components along the direction
-    :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and ``A_phi`` for components
-    along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
-    if ``phi = 180.`` is chosen, ``A_theta`` will be for components along
-    :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``A_phi``
-    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
-
-    Examples
-    --------
-    Create the design matrices given 4 locations on the Earth's surface:
-
-    >>> r = 6371.2
-    >>> theta = np.array([90., 100., 110., 120.])
-    >>> phi = 0.
-    >>> A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=1)
-    >>> A_radius
-    array([[ 1.22464680e-16, 2.00000000e+00, 0.00000000e+00],
-           [-3.47296355e-01, 1.96961551e+00, 0.00000000e+00],
-           [-6.84040287e-01, 1.87938524e+00, 0.00000000e+00],
-           [-1.00000000e+00, 1.73205081e+00, 0.00000000e+00]])
-
-    Say, only the axial dipole coefficient is non-zero, what is the magnetic
-    field in terms of spherical geocentric components?
-
-    >>> m = np.array([-30000, 0., 0.])  # model coefficients in nT
-    >>> Br = A_radius @ m; Br
-    array([-3.67394040e-12, 1.04188907e+04, 2.05212086e+04, 3.00000000e+04])
-    >>> Bt = A_theta @ m; Bt
-    array([-30000. , -29544.23259037, -28190.77862358, -25980.76211353])
-    >>> Bp = A_phi @ m; Bp
-    array([0., 0., 0., 0.])
-
-    A more complete example is given below:
-
-    .. code-block:: python
-
-        import numpy as np
-        from chaosmagpy.model_utils import design_gauss, synth_values
-
-        nmax = 5  # desired truncation degree, i.e. 35 model coefficients
-        coeffs = np.arange(35)  # example model coefficients
-
-        # example locations
-        N = 10
-        radius = 6371.2  # Earth's surface
-        phi = np.linspace(-180., 180., num=N)  # azimuth in degrees
-        theta = np.linspace(1., 179., num=N)  # colatitude in degrees
-
-        # compute design matrices to compute predictions of the
-        # field components from the model coefficients, each is of shape N x 35
-        A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=nmax)
-
-        # magnetic components computed from the model
-        Br_pred = A_radius @ coeffs
-        Bt_pred = A_theta @ coeffs
-        Bp_pred = A_phi @ coeffs
-
-        # compute the magnetic components directly from the coefficients
-        Br, Bt, Bp = synth_values(coeffs, radius, theta, phi)
-        np.linalg.norm(Br - Br_pred)  # approx 0.
-        np.linalg.norm(Bt - Bt_pred)  # approx 0.
-        np.linalg.norm(Bp - Bp_pred)  # approx 0.
-
-    """
-
-    # ensure ndarray inputs
-    radius = (np.asarray(radius, dtype=float)
-              / config_utils.basicConfig['params.r_surf'])
-    theta = np.asarray(theta, dtype=float)
-    phi = np.asarray(phi, dtype=float)
-
-    # get shape of broadcasted result
-    try:
-        b = np.broadcast(radius, theta, phi)
-
-    except ValueError:
-        print('Cannot broadcast grid shapes:')
-        print(f'radius: {radius.shape}')
-        print(f'theta:  {theta.shape}')
-        print(f'phi:    {phi.shape}')
-        raise
-
-    shape = b.shape
-
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
-
-    # check if poles are included
-    if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min >= 0.0) and (theta_max <= 180.0):
-            warnings.warn('Input coordinates include the poles.')
-            poles = True
-        else:
-            raise ValueError('Colatitude outside bounds [0, 180].')
-    else:
-        poles = False
-
-    # set internal source as default
-    if source is None:
-        source = 'internal'
-
-    assert nmax > 0, '"nmax" must be greater than zero.'
-
-    nmin = 1 if nmin is None else int(nmin)
-    assert nmin <= nmax, '"nmin" must be smaller than "nmax".'
-    assert nmin > 0, '"nmin" must be greater than zero.'
-
-    mmax = nmax if mmax is None else int(mmax)
-    assert mmax <= nmax, '"mmax" must be smaller than "nmax".'
-    assert mmax >= 0, '"mmax" must be greater than or equal to zero.'
-
-    # initialize radial dependence given the source
-    if source == 'internal':
-        r_n = radius**(-(nmin+2))
-    elif source == 'external':
-        r_n = radius**(nmin-1)
-    else:
-        raise ValueError("Source must be either 'internal' or 'external'.")
-
-    # compute associated Legendre polynomials as (n, m, theta-points)-array
-    Pnm = legendre_poly(nmax, theta)
-    sinth = Pnm[1, 1]
-
-    phi = np.radians(phi)
-
-    # find the poles
-    if poles:
-        where_poles = (theta == 0.) | (theta == 180.)
-
-    # compute the number of dimensions based on nmax, nmin, mmax
-    if mmax >= (nmin-1):
-        dim = int(mmax*(mmax+2) + (nmax-mmax)*(2*mmax+1) - nmin**2 + 1)
-    else:
-        dim = int((nmax-nmin+1)*(2*mmax+1))
-
-    # allocate A_radius, A_theta, A_phi in memeory
-    A_radius = np.zeros(shape + (dim,))
-    A_theta = np.zeros(shape + (dim,))
-    A_phi = np.zeros(shape + (dim,))
-
-    num = 0
-    for n in range(nmin, nmax+1):
-
-        if source == 'internal':
-            A_radius[..., num] = (n+1) * Pnm[n, 0] * r_n
-        else:
-            A_radius[..., num] = -n * Pnm[n, 0] * r_n
-
-        A_theta[..., num] = -Pnm[0, n+1] * r_n
-
-        num += 1
-        for m in range(1, min(n, mmax)+1):
-
-            cmp = np.cos(m*phi)
-            smp = np.sin(m*phi)
-
-            if source == 'internal':
-                A_radius[..., num] = (n+1) * Pnm[n, m] * r_n * cmp
-                A_radius[..., num+1] = (n+1) * Pnm[n, m] * r_n * smp
-            else:
-                A_radius[..., num] = -n * Pnm[n, m] * r_n * cmp
-                A_radius[..., num+1] = -n * Pnm[n, m] * r_n * smp
-
-            A_theta[..., num] = -Pnm[m, n+1] * r_n * cmp
-            A_theta[..., num+1] = -Pnm[m, n+1] * r_n * smp
-
-            # need special treatment at the poles because Pnm/sinth = 0/0 for
-            # theta in {0., 180.},
-            # use L'Hopital's rule to take the limit:
-            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
-            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
-            # theta=180.); k = costh = P[1, 0] at poles for convenience
-            if poles:
-                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
-                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
-                div_Pnm[~where_poles] /= sinth[~where_poles]
-            else:
-                div_Pnm = Pnm[n, m] / sinth
-
-            A_phi[..., num] = m * div_Pnm * r_n * smp
-            A_phi[..., num+1] = -m * div_Pnm * r_n * cmp
-
-            num += 2
-
-        # update radial dependence given the source
-        if source == 'internal':
-            r_n = r_n / radius
-        else:
-            r_n = r_n * radius
-
-    return A_radius, A_theta, A_phi
-
-
-def legendre_poly(nmax, theta):
-    """
-    Returns associated Legendre polynomials :math:`P_n^m(\\cos\\theta)`
-    (Schmidt quasi-normalized) and the derivative
-    :math:`dP_n^m(\\cos\\theta)/d\\theta` evaluated at :math:`\\theta`.
-
-    Parameters
-    ----------
-    nmax : int, positive
-        Maximum degree of the spherical expansion.
-    theta : ndarray, shape (...)
-        Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`
-        of arbitrary shape.
-
-    Returns
-    -------
-    Pnm : ndarray, shape (n, m, ...)
-          Evaluated values and derivatives, grid shape is appended as trailing
-          dimensions. :math:`P_n^m(\\cos\\theta)` := ``Pnm[n, m, ...]`` and
-          :math:`dP_n^m(\\cos\\theta)/d\\theta` := ``Pnm[m, n+1, ...]``
-
-    References
-    ----------
-    Based on Equations 26-29 and Table 2 in:
-
-    Langel, R. A., "Geomagnetism - The main field", Academic Press, 1987,
-    chapter 4
-
-    """
-
-    costh = np.cos(np.radians(theta))
-    # sine of the angle from the nearest pole, sqrt(1-cos^2) is inaccurate there
-    theta = np.asarray(theta, dtype=float)
-    sinth = np.abs(np.sin(np.radians(np.minimum(theta, 180.0 - theta))))
-
-    Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
-    Pnm[0, 0] = 1.  # is copied into trailing dimensions
-    Pnm[1, 1] = sinth  # write theta into trailing dimenions via broadcasting
-
-    rootn = np.sqrt(np.arange(2 * nmax**2 + 1))
-
-    # Recursion relations after Langel "The Main Field" (1987),
-    # eq. (27) and Table 2 (p. 256)
-    for m in range(nmax):
-        Pnm_tmp = rootn[m+m+1] * Pnm[m, m]
-        Pnm[m+1, m] = costh * Pnm_tmp
-
-        if m > 0:
-            Pnm[m+1, m+1] = sinth*Pnm_tmp / rootn[m+m+2]
-
-        for n in range(m+2, nmax+1):
-            d = n * n - m * m
-            e = n + n - 1
-            Pnm[n, m] = ((e * costh * Pnm[n-1, m] - rootn[d-e] * Pnm[n-2, m])
-                         / rootn[d])
-
-    # dP(n,m) = Pnm(m,n+1) is the derivative of P(n,m) vrt. theta
-    Pnm[0, 2] = -Pnm[1, 1]
-    Pnm[1, 2] = Pnm[1, 0]
-    for n in range(2, nmax+1):
-        Pnm[0, n+1] = -np.sqrt((n*n + n) / 2) * Pnm[n, 1]
-        Pnm[1, n+1] = ((np.sqrt(2 * (n*n + n)) * Pnm[n, 0]
-                       - np.sqrt((n*n + n - 2)) * Pnm[n, 2]) / 2)
-
-        for m in range(2, n):
-            Pnm[m, n+1] = (0.5*(np.sqrt((n + m) * (n - m + 1)) * Pnm[n, m-1]
-                           - np.sqrt((n + m + 1) * (n - m)) * Pnm[n, m+1]))
-
-        Pnm[n, n+1] = np.sqrt(2 * n) * Pnm[n, n-1] / 2
-
-    return Pnm
-
-
-def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
-    """
-    Compute the spatial power spectrum.
-
-    Parameters
-    ----------
-    coeffs : ndarray, shape (..., N*(N+2))
-        Spherical harmonic coefficients for degree `N`.
-    radius : float, optional
-        Radius in kilometers (defaults to mean Earth's surface radius).
-        It has no effect for ``source='toroidal'``.
-    nmax : int, optional
-        Maximum spherical degree (defaults to `N`).
-    source : {'internal', 'external', 'toroidal'}
-        Source of the field model (defaults to internal).
-    axis : int, optional
-        Axis of ``coeffs`` along which to compute the spatial power spectrum
-        (defaults to -1, last dimension of ``coeffs``).
-
-    Returns
-    -------
-    W_n : ndarray, shape (..., ``nmax``)
-        Power spectrum for degrees up to degree ``nmax``
-
-    Notes
-    -----
-    The spatial power spectrum for a potential field is defined as
-
-    .. math::
-
-        W_n(r) &= \\langle|\\mathbf{B}|^2\\rangle
-             = \\frac{1}{4\\pi}\\iint_\\Omega |\\mathbf{B}|^2 \\mathrm{d}
-               \\Omega \\\\
-             &= W_n^\\mathrm{i}(r) + W_n^\\mathrm{e}(r) + W_n^\\mathrm{T}
-
-    where the internal :math:`W_n^\\mathrm{i}`, external
-    :math:`W_n^\\mathrm{e}` and the non-potential toroidal
-    :math:`W_n^\\mathrm{T}` spatial power spectra are
-
-    .. math::
-
-        W_n^\\mathrm{i}(r) &= (n+1)\\left(\\frac{a}{r}\\right)^{2n+4}
-                              \\sum_{m=0}^n [(g_n^m)^2 + (h_n^m)^2] \\\\
-        W_n^\\mathrm{e}(r) &= n\\left(\\frac{r}{a}\\right)^{2n-2}\\sum_{m=0}^n
-                              [(q_n^m)^2 + (s_n^m)^2] \\\\
-        W_n^\\mathrm{T}    &= \\frac{n(n+1)}{2n+1}\\sum_{m=0}^n
-                              [(T_n^{m,c})^2 + (T_n^{m,s})^2]
-
-    References
-    ----------
-    Sabaka, T. J.; Hulot, G. & Olsen, N.,
-    "Mathematical properties relevant to geomagnetic field modeling",
-    Handbook of geomathematics, Springer, 2010, 503-538
-
-    """
-
-    axis = -1 if axis is None else int(axis)
-    if radius is None:
-        r = 1
-    else:
-        r = config_utils.basicConfig['params.r_surf'] / radius
-
-    N = int(np.sqrt(coeffs.shape[axis] + 1) - 1)  # maximum degree
-
-    if nmax is None:
-        nmax = N
-    elif nmax > N:
-        print(f'Incompatible maximum degree nmax = {nmax}, '
-              f'setting nmax to {N}.')
-        nmax = N
-
-    source = 'internal' if source is None else source
-
-    if source == 'internal':
-        def factor(n, r):
-            return (n+1) * r**(2*n+4)
-    elif source == 'external':
-        def factor(n, r):
-            return n * r**(-(2*n-2))
-    elif source == 'toroidal':
-        def factor(n, _):
-            return n*(n+1) / (2*n+1)
-    else:
-        raise ValueError(
-            'Unknown source. Use `internal`, `external` or `toroidal`.')
-
-    shape = list(coeffs.shape)
-    shape[axis] = nmax  # replace dim of axis with nmax
-    W_n = np.empty(shape)
-
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-
-        slc1 = coeffs.ndim*[slice(None), ]  # index for summation
-        slc1[axis] = slice(min, max)
-
-        slc2 = coeffs.ndim*[slice(None), ]  # index for insertion into output
-        slc2[axis] = n-1
-
-        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,
-                                               axis=axis)
-
-    return W_n
-
-
-def degree_correlation(coeffs_1, coeffs_2):
-    """
-    Correlation per spherical harmonic degree between two models 1 and 2.
-
-    Parameters
-    ----------
-    coeffs_1, coeffs_2 : ndarray, shape (N,)
-        Two sets of coefficients of equal length `N`.
-
-    Returns
-    -------
-    C_n : ndarray, shape (nmax,)
-        Degree correlation of the two models. There are `N = nmax(nmax+2)`
-        coefficients.
-
-    """
-
-    if coeffs_1.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_1.ndim} != 1)')
-
-    if coeffs_2.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_2.ndim} != 1)')
-
-    if coeffs_1.size != coeffs_2.size:
-        raise ValueError(
-            'Number of coefficients must be the same '
-            '({0} != {1}).'.format(coeffs_1.size, coeffs_2.size))
-
-    nmax = int(np.sqrt(coeffs_1.size + 1) - 1)
-
-    C_n = np.zeros((nmax,))
-    R_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_1
-    S_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_2
-
-    coeffs_12 = coeffs_1*coeffs_2
-
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-        R_n[n-1] = np.sum(coeffs_1[min:max]**2)
-        S_n[n-1] = np.sum(coeffs_2[min:max]**2)
-        C_n[n-1] = (np.sum(coeffs_12[min:max]) / np.sqrt(R_n[n-1]*S_n[n-1]))
-
-    return C_n
-
-
-def sensitivity(coeffs, coeffs_true):
-    """
-    Sensitivity (degree normalized error) of the input coefficients with
-    respect to the target/true coefficients.
-
-    Parameters
-    ----------
-    coeffs: ndarray, shape (N,)
-        Input spherical harmonic coefficients.
-    coeffs_true: ndarray, shape (N,)
-        Target/true spherical harmonic coefficients.
-
-    Returns
-    -------
-    S: ndarray, shape (N,)
-        Sensitivity of ``coeffs`` with respect to ``coeffs_true``.
-
-    Examples
-    --------
-    >>> import chaosmagpy as cp
-    >>> import numpy as np
-    >>> coeffs = np.array([1., 2., 5.])  # estimated degree 1 coefficients
-    >>> coeffs_true = np.array([1., 2., 3.])  # target degree 1 coefficients
-    >>> cp.model_utils.sensitivity(coeffs, coeffs_true)
-    array([0., 0., 0.63245553])
-
-    """
-    if coeffs.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs.ndim} != 1)')
-
-    if coeffs_true.ndim != 1:
-        raise ValueError(f'Only 1-D input allowed ({coeffs_true.ndim} != 1)')
-
-    if coeffs.size != coeffs_true.size:
-        raise ValueError(
-            'Number of coefficients must be the same '
-            '({0} != {1}).'.format(coeffs.size, coeffs_true.size))
-
-    nmax = int(np.sqrt(coeffs.size + 1) - 1)
-
-    S = coeffs - coeffs_true
-
-    # apply degree-dependent scaling
-    for n in range(1, nmax+1):
-        min = n**2 - 1
-        max = min + (2*n + 1)
-
-        S[min:max] *= 1. / np.sqrt(np.sum(coeffs_true[min:max]**2) / (2*n + 1))
-
-    return S
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.model_utils` provides functions for analyzing and estimating
+geomagnetic field models in general, and the CHAOS geomagnetic field model in
+particular.
+
+.. autosummary::
+    :toctree: functions
+
+    design_matrix
+    design_gauss
+    colloc_matrix
+    augment_breaks
+    pp_from_bspline
+    synth_from_pp
+    synth_values
+    legendre_poly
+    power_spectrum
+    degree_correlation
+    sensitivity
+
+"""
+
+import numpy as np
+import warnings
+from scipy.interpolate import BSpline, PPoly
+from . import config_utils
+
+
+def design_matrix(knots, order, n_tdep, time, radius, theta, phi,
+                  n_static=None, source=None):
+    """
+    Returns matrices that connect radial, colatitude and azimuthal field
+    components on a grid with `radius`, `theta` (colatitude) and `phi`
+    to the spherical harmonics expansion of a potential.
+
+    The potential is time-dependent on large length-scales (`n` <= `n_tdep`)
+    and static on small length-scales (`n_tdep` < `n` <= `n_static`). The
+    time-dependent part uses a B-spline representation of order `k`.
+
+    Parameters
+    ----------
+    knots : ndarray, shape >= (k+1,)
+        Knot vector with adequate endpoint multiplicity.
+    order : int, positive
+        Order `k` of B-spline basis functions (4 = cubic).
+    n_tdep : int, positive
+        Maximum degree of the time-dependent field.
+    time : ndarray, shape (N,)
+        Time vector of the `N` data points in days.
+    radius : ndarray, shape (N,)
+        Radius vector of the `N` data points in kilometers.
+    theta : ndarray, shape (N,)
+        Data colatitude vector in degrees :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (N,)
+        Data longitude vector in degrees.
+    n_static : int, positive, optional
+        Maximum degree of static field (default is ``None``,
+        `n_static` > `n_tdep`).
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is internal).
+
+    Returns
+    -------
+    G_radius, G_theta, G_phi : ndarray, shape (N, ...)
+        Forward matrix for :math:`B_r`, :math:`B_{\\theta}` and
+        :math:`B_{\\phi}`.
+
+    Raises
+    ------
+    ValueError
+        If degree of static field is smaller than the degree of the time-dep.
+        field. In order to exclude the static field and obtain a purely
+        time-dependent potential, use optional argument ``n_static=None`` or
+        leave out completely.
+
+    See Also
+    --------
+    design_gauss
+
+    """
+
+    assert time.shape == radius.shape == theta.shape == phi.shape
+    assert time.ndim == 1
+    assert np.amin(theta) > 0. and np.amax(theta) < 180.
+
+    n_data = time.size  # number of data points
+
+    if n_static:
+        if n_static < n_tdep:
+            raise ValueError("Degree of static field must be greater than "
+                             "degree of time-dependent field.")
+        elif n_static == n_tdep:
+            warnings.warn("Static and time-dependent field are of same "
+                          "degree. Ignoring static field.")
+
+    if n_static is None:
+        n_static = n_tdep
+
+    if source is None:
+        source = 'internal'
+
+    n_coeff_tdep = n_tdep * (n_tdep + 2)  # number of t-dep field coefficients
+    n_coeff_static = n_static * (n_static + 2)  # number of static field coeff
+
+    # compute matrices that connect harmonics expansion with field values
+    A_radius, A_theta, A_phi = design_gauss(radius, theta, phi,
+                                            nmax=n_static, source=source)
+
+    # compute collocation matrix of B-spline segments
+    collmat = colloc_matrix(time, knots, order)
+    n_segment = collmat.shape[1]  # number of B-spline basis functions
+
+    # allocate memory for output matrices
+    G_radius = np.empty((n_data, (n_segment - 1)*n_coeff_tdep
+                        + n_coeff_static))
+    G_theta = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
+    G_phi = np.empty((n_data, (n_segment - 1)*n_coeff_tdep + n_coeff_static))
+
+    n_col = 0  # counter for columns
+    for coeff in range(n_coeff_tdep):
+        # for each time-dependent expansion coefficient, multiply with
+        # collocation matrix use broadcasting to match shapes
+        G_radius[:, n_col:n_col+n_segment] = A_radius[:, coeff, None] * collmat
+        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff, None] * collmat
+        G_phi[:, n_col:n_col+n_segment] = A_phi[:, coeff, None] * collmat
+
+        n_col += n_segment
+
+    # add static background field
+    G_radius[:, n_col:] = A_radius[:, n_coeff_tdep:n_coeff_static]
+    G_theta[:, n_col:] = A_theta[:, n_coeff_tdep:n_coeff_static]
+    G_phi[:, n_col:] = A_phi[:, n_coeff_tdep:n_coeff_static]
+
+    return G_radius, G_theta, G_phi
+
+
+def colloc_matrix(x, knots, order, deriv=None):
+    """
+    Create collocation matrix of a univariate function on `x` in terms  of a
+    B-spline representation of order `k`.
+
+    The computation of the splines is based on the scipy-package.
+
+    Parameters
+    ----------
+    x : ndarray, shape (N,)
+        `N` points to evaluate the B-spline at.
+    knots : ndarray, shape >= (k+1,)
+        Vector of knots derived from breaks (with appropriate endpoint
+        multiplicity).
+    order : int, positive
+        Order `k` of the B-spline (4 = cubic).
+    deriv: int, positive, optional
+        Derivative of the B-spline partition (defaults to 0).
+
+    Returns
+    -------
+    collmat : ndarray, shape (N, n-k)
+        Collocation matrix, `n` is the size of `knots`.
+
+    See Also
+    --------
+    augment_breaks
+
+    """
+
+    if deriv is None:
+        deriv = 0
+
+    if deriv >= order:
+        return np.zeros((max(x.size, 1), knots.size - order))
+
+    else:
+        # create spline using scipy.interpolate
+        coll = np.empty((max(x.size, 1), knots.size - order))
+
+        for n in range(knots.size - order):
+            c = np.zeros(knots.size - order)
+            c[n] = 1.
+
+            b = BSpline.construct_fast(knots, c, order-1, extrapolate=False)
+
+            coll[:, n] = b(x, nu=deriv)
+
+        return coll
+
+
+def augment_breaks(breaks, order):
+    """
+    Augment a vector of break points and return the knot vector for a
+    B-spline representation of order `k`.
+
+    Parameters
+    ----------
+    breaks: ndarray, shape (n,)
+        1-D array, containing `n` break points (without endpoint repeats).
+    order: int, positive
+        Order `k` of B-spline (4 = cubic).
+
+    Returns
+    -------
+    knots: ndarray, shape (n+2k-2,)
+        1-D array with `k`-times repeated copies of the `breaks`-vector
+        endpoints ``breaks[0]`` and ``breaks[-1]``.
+
+    """
+
+    if isinstance(breaks, np.ndarray) and breaks.ndim > 1:
+        raise ValueError("Breaks must be a 1-D array.")
+
+    degree = order - 1
+    return np.array([breaks[0]]*degree + list(breaks) + [breaks[-1]]*degree)
+
+
+def pp_from_bspline(coeffs, knots, order):
+    """
+    Return a piecewise polynomial from a BSpline representation.
+
+    Parameters
+    ----------
+    coeffs : ndarray, shape (M, D)
+        Bspline coefficients for the `M` B-splines parameterizing
+        `D` dimensions.
+    knots : ndarray, shape (N,)
+        B-spline knots. The knots must have the full endpoint multiplicity.
+        Zero-pad spline coefficients if needed.
+    order : int
+        Order of the B-spline.
+
+    Returns
+    -------
+    coeffs_pp : ndarray, shape (K, P, D)
+        Coefficients of the piecewise polynomial where `K` is the order
+        (``order``), `P` is the number of pieces and `D` is the dimension.
+    breaks : ndarray, shape (P+1,)
+        Break points of the piecewise polynomial.
+
+    """
+
+    degree = order - 1
+    breaks = np.unique(knots)
+    pieces = breaks.size - 1
+    dim = coeffs.shape[-1]
+
+    coeffs_pp = np.empty((order, pieces, dim))
+
+    # have to do it manually for each dimension
+    for d in range(dim):
+
+        bs = BSpline(knots, coeffs[:, d], degree)
+        pp = PPoly.from_spline(bs, extrapolate=False)
+
+        # remove the empty pieces due to knot multiplicities
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(pp.x) > 0.]
+
+    return coeffs_pp, breaks
+
+
+def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
+                  nmax=None, source=None, deriv=None, grid=None):
+    """
+    Compute radial, colatitude and azimuthal field components from the magnetic
+    potential in terms of a spherical harmonic expansion in form of a
+    piecewise polynomial.
+
+    Parameters
+    ----------
+    breaks : ndarray, shape (m+1,)
+        1-D array, containing `m+1` break points (without endpoint repeats) for
+        `m` intervals.
+    order : int, positive
+        Order `k` of piecewise polynomials (4 = cubic).
+    coeffs : ndarray, shape (k, m, nmax*(nmax+2))
+        Coefficients of the piecewise polynomials, where `m` is the number of
+        polynomial pieces. The trailing dimension is equal to the number of
+        expansion coefficients for each interval.
+    time : ndarray, shape (...)
+        Array containing the time in days.
+    radius : ndarray, shape (...) or float
+        Array containing the radius in kilometers.
+    theta : ndarray, shape (...) or float
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (...) or float
+        Array containing the longitude in degrees.
+    nmax : int, positive, optional
+        Maximum degree harmonic expansion (default is given by ``coeffs``,
+        but can also be smaller, if specified).
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+    deriv : int, positive, optional
+        Derivative to be taken (default is 0).
+    grid : bool, optional
+        If ``True``, field components are computed on a regular grid. Arrays
+        ``theta`` and ``phi`` must have one dimension less than the output grid
+        since the grid will be created as their outer product.
+
+    Returns
+    -------
+    B_radius, B_theta, B_phi : ndarray, shape (...)
+        Radial, colatitude and azimuthal field components.
+
+    See Also
+    --------
+    synth_values
+
+    """
+
+    # handle optional argument: nmax
+    nmax_coeffs = int(np.sqrt(coeffs.shape[-1] + 1) - 1)  # degree for coeffs
+    if nmax is None:
+        nmax = nmax_coeffs
+    elif nmax > nmax_coeffs:
+        warnings.warn('Input nmax = {0} is incompatible with the number of '
+                      'model coefficients. Using nmax = {1} instead.'.format(
+                        nmax, nmax_coeffs))
+        nmax = nmax_coeffs
+
+    # handle optional argument: source
+    source = 'internal' if source is None else source
+
+    # compute SH coefficients from pp-form and take derivatives if needed
+    deriv = 0 if deriv is None else deriv
+
+    # set grid option to false
+    grid = False if grid is None else grid
+
+    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
+                              extrapolate=False)
+
+    PP = PP.derivative(nu=deriv)
+    gauss_coeffs = PP(time) * 365.25**deriv
+
+    B_radius, B_theta, B_phi = synth_values(
+        gauss_coeffs, radius, theta, phi, nmax=nmax, source=source, grid=grid)
+
+    return B_radius, B_theta, B_phi
+
+
+def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
+                 mmax=None, source=None, grid=None):
+    """
+    Computes radial, colatitude and azimuthal field components from the
+    magnetic potential field in terms of spherical harmonic coefficients.
+
+    Parameters
+    ----------
+
+    coeffs : ndarray, shape (..., M)
+        Coefficients of the spherical harmonic expansion. The last dimension is
+        equal to the number of coefficients.
+    radius : float or ndarray, shape (...)
+        Array containing the radius in kilometers.
+    theta : float or ndarray, shape (...)
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : float or ndarray, shape (...)
+        Array containing the longitude in degrees.
+    nmax : int, positive, optional
+        Maximum degree up to which expansion is to be used (default is given by
+        the last dimension of ``coeffs``, that is, ``M = nmax(nmax+2)``). This
+        value can also be smaller if only coefficients at low degree should
+        contribute.
+    nmin : int, positive, optional
+        Minimum degree of the expansion (defaults to 1). This value must
+        correspond to the minimum degree of the coefficients and cannot be
+        larger.
+    mmax : int, positive, optional
+        Maximum order of the spherical harmonic expansion (defaults to
+        ``nmax``). This value can also be smaller. For example, if only the
+        zonal part of the expansion should be used, set ``mmax = 0``.
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+    grid : bool, optional
+        If ``True``, field components are computed on a regular grid. Arrays
+        ``theta`` and ``phi`` must have one dimension less than the output grid
+        since the grid will be created as their outer product (defaults to
+        ``False``).
+
+    Returns
+    -------
+    B_radius, B_theta, B_phi : ndarray, shape (...)
+        Radial, colatitude and azimuthal field components.
+
+    Warnings
+    --------
+    The function can also evaluate the field components at the geographic
+    poles, i.e. where ``theta == 0.`` or ``theta == 180.``. However, users
+    should be careful when doing this because the vector basis for spherical
+    geocentric coordinates,
+    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
+    depends on longitude, which is not well defined at the poles. That is,
+    at the poles, any value for the longitude maps to the same location in
+    euclidean coordinates but gives a different vector basis in spherical
+    geocentric coordinates. Nonetheless, by choosing a specific value for the
+    longitude at the poles, users can define the vector basis, which then
+    establishes the meaning of the spherical geocentric components returned by
+    this function. The vector basis for the horizontal components is defined as
+
+    .. math::
+
+        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
+            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
+        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
+            \\cos\\phi\\mathbf{e}_y
+
+    Hence, at the geographic north pole as given by ``theta = 0.`` and
+    ``phi = 0.`` (user input), the returned component ``B_theta``
+    will be along the direction :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and
+    ``B_phi`` along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
+    if ``phi = 180.`` is chosen, ``B_theta``
+    will be along :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``B_phi``
+    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
+
+    Notes
+    -----
+    The function can work with different grid shapes, but the inputs have to
+    satisfy NumPy's `broadcasting rules \\
+    <https://docs.scipy.org/doc/numpy-1.15.0/user/basics.broadcasting.html>`_
+    (``grid=False``, default). This also applies to the dimension of the
+    coefficients ``coeffs`` excluding the last dimension.
+
+    The optional parameter ``grid`` is for convenience. If set to ``True``,
+    a singleton dimension is appended (prepended) to ``theta`` (``phi``)
+    for broadcasting to a regular grid. The other inputs ``radius`` and
+    ``coeffs`` must then be broadcastable as before but now with the resulting
+    regular grid.
+
+    Examples
+    --------
+    The most straight forward computation uses a fully specified grid. For
+    example, compute the magnetic field at :math:`N=50` grid points on the
+    surface.
+
+    .. code-block:: python
+
+      import chaosmagpy.model_utils as cpm
+      import numpy as np
+
+      N = 50
+      coeffs = np.ones((3,))  # degree 1 coefficients for all points
+      radius = 6371.2 * np.ones((N,))  # radius of 50 points in km
+      phi = np.linspace(-180., 180., num=N)  # azimuth of 50 points in deg.
+      theta = np.linspace(0., 180., num=N)  # colatitude of 50 points in deg.
+
+      B = cpm.synth_values(coeffs, radius, theta, phi)
+      print([B[num].shape for num in range(3)])  # output shape (N,)
+
+    Instead of `N` points, compute the field on a regular
+    :math:`N\\times N`-grid in azimuth and colatitude (slow).
+
+    .. code-block:: python
+
+      radius_grid = 6371.2 * np.ones((N, N))
+      phi_grid, theta_grid = np.meshgrid(phi, theta)  # grid of shape (N, N)
+
+      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    But this is slow since some computations on the grid are repeatedly done.
+    The preferred method is to use NumPy's broadcasting rules (fast).
+
+    .. code-block:: python
+
+      radius_grid = 6371.2  # float, () or (1,)-shaped array broadcasted to NxN
+      theta_grid = theta[:, None]  # append singleton: (N, 1)
+      phi_grid = phi[None, :]  # prepend singleton: (1, N)
+
+      B = cpm.synth_values(coeffs, radius_grid, theta_grid, phi_grid)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    For convenience, you can do the same by using ``grid=True`` option, which
+    appends a singleton dimension to ``theta`` and inserts a singleton
+    dimension at the second to last position in the shape of ``phi``.
+
+    .. code-block:: python
+
+      B = cpm.synth_values(coeffs, radius_grid, theta, phi, grid=True)
+      print([B[num].shape for num in range(3)])  # output shape (N, N)
+
+    Remember that ``grid=False`` (default) will result in
+    (N,)-shaped outputs as in the first example.
+
+    """
+
+    # ensure ndarray inputs
+    coeffs = np.asarray(coeffs, dtype=float)
+    radius = (np.asarray(radius, dtype=float)
+              / config_utils.basicConfig['params.r_surf'])
+    theta = np.asarray(theta, dtype=float)
+    phi = np.asarray(phi, dtype=float)
+
+    theta_min = np.amin(theta)
+    theta_max = np.amax(theta)
+
+    if (theta_min <= 0.0) or (theta_max >= 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
+            warnings.warn('Input coordinates include the poles.')
+            poles = True
+        else:
+            raise ValueError('Colatitude outside bounds [0, 180].')
+    else:
+        poles = False
+
+    nmin = 1 if nmin is None else int(nmin)
+    assert nmin > 0, 'The value of "nmin" must be greater than zero.'
+
+    dim = coeffs.shape[-1]
+
+    # handle nmax and mmax
+    if (nmax is None) and (mmax is None):
+        nmax = int(np.sqrt(dim + nmin**2) - 1)
+        mmax = nmax
+
+    elif mmax is None:  # but nmax given
+        mmax = nmax
+
+    elif nmax is None:  # but mmax given
+
+        if mmax >= (nmin-1):
+            nmax = int((dim - mmax*(mmax+2) + nmin**2 - 1) / (2*mmax+1) + mmax)
+
+        else:
+            nmax = int(dim / (2*mmax+1) + nmin - 1)
+
+    if nmax < nmin:
+        raise ValueError(f'Nothing to compute: nmax ({nmax}) < nmin ({nmin}).')
+
+    # handle optional argument: source
+    if source is None:
+        source = 'internal'
+
+    # handle grid option
+    grid = False if grid is None else grid
+
+    # manually broadcast input grid on surface
+    if grid:
+        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension
+        phi = np.expand_dims(phi, axis=-2)  # insert singleton before last
+
+    # get shape of broadcasted result
+    try:
+        b = np.broadcast(
+            radius, theta, phi, np.broadcast_to(0, coeffs.shape[:-1]))
+
+    except ValueError:
+        print('Cannot broadcast grid shapes (excl. last dimension of coeffs):')
+        print(f'radius: {radius.shape}')
+        print(f'theta:  {theta.shape}')
+        print(f'phi:    {phi.shape}')
+        print(f'coeffs: {coeffs.shape[:-1]}')
+        raise
+
+    grid_shape = b.shape
+
+    # initialize radial dependence given the source
+    if source == 'internal':
+        r_n = radius**(-(nmin+2))
+    elif source == 'external':
+        r_n = radius**(nmin-1)
+    else:
+        raise ValueError("Source must be either 'internal' or 'external'.")
+
+    # compute associated Legendre polynomials as (n, m, theta-points)-array
+    Pnm = legendre_poly(nmax, theta)
+
+    # save sinth for fast access
+    sinth = Pnm[1, 1]
+
+    # find the poles
+    if poles:
+        where_poles = (theta == 0.) | (theta == 180.)
+
+    # convert phi to radians
+    phi = np.radians(phi)
+
+    # allocate arrays in memory
+    B_radius = np.zeros(grid_shape)
+    B_theta = np.zeros(grid_shape)
+    B_phi = np.zeros(grid_shape)
+
+    num = 0
+    for n in range(nmin, nmax+1):
+
+        if source == 'internal':
+            B_radius += (n+1) * Pnm[n, 0] * r_n * coeffs[..., num]
+        else:
+            B_radius += -n * Pnm[n, 0] * r_n * coeffs[..., num]
+
+        B_theta += -Pnm[0, n+1] * r_n * coeffs[..., num]
+
+        num += 1
+        for m in range(1, min(n, mmax)+1):
+
+            cmp = np.cos(m*phi)
+            smp = np.sin(m*phi)
+
+            if source == 'internal':
+                B_radius += ((n+1) * Pnm[n, m] * r_n
+                             * (coeffs[..., num] * cmp
+                                + coeffs[..., num+1] * smp))
+            else:
+                B_radius += -(n * Pnm[n, m] * r_n
+                              * (coeffs[..., num] * cmp
+                                 + coeffs[..., num+1] * smp))
+
+            B_theta += (-Pnm[m, n+1] * r_n
+                        * (coeffs[..., num] * cmp
+                           + coeffs[..., num+1] * smp))
+
+            # need special treatment at the poles because Pnm/sinth = 0/0 for
+            # theta in {0., 180.},
+            # use L'Hopital's rule to take the limit:
+            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
+            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
+            # theta=180.); k = costh = P[1, 0] at poles for convenience
+            if poles:
+                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
+                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
+                div_Pnm[~where_poles] /= sinth[~where_poles]
+            else:
+                div_Pnm = Pnm[n, m] / sinth
+
+            B_phi += (m * div_Pnm * r_n
+                      * (coeffs[..., num] * smp
+                         - coeffs[..., num+1] * cmp))
+
+            num += 2
+
+        if source == 'internal':
+            r_n = r_n / radius  # equivalent to r_n = radius**(-(n+2))
+        else:
+            r_n = r_n * radius  # equivalent to r_n = radius**(n-1)
+
+    return B_radius, B_theta, B_phi
+
+
+def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
+                 source=None):
+    """
+    Computes matrices to connect the radial, colatitude and azimuthal field
+    components to the magnetic potential field in terms of spherical harmonic
+    coefficients (Schmidt quasi-normalized).
+
+    Parameters
+    ----------
+
+    radius : ndarray, shape (...)
+        Array containing the radius in kilometers.
+    theta : ndarray, shape (...)
+        Array containing the colatitude in degrees
+        :math:`[0^\\circ,180^\\circ]`.
+    phi : ndarray, shape (...)
+        Array containing the longitude in degrees.
+    nmax : int, positive
+        Maximum degree of the sphercial harmonic expansion.
+    nmin : int, positive, optional
+        Minimum degree of the sphercial harmonic expansion (defaults to 1).
+    mmax : int, positive, optional
+        Maximum order of the spherical harmonic expansion (defaults to
+        ``nmax``). For ``mmax = 0``, for example, only the zonal terms are
+        returned.
+    source : {'internal', 'external'}, optional
+        Magnetic field source (default is an internal source).
+
+    Returns
+    -------
+    A_radius, A_theta, A_phi : ndarray, shape (..., M)
+        Matrices for radial, colatitude and azimuthal field components. The
+        second dimension ``M`` varies depending on ``nmax``, ``nmin`` and
+        ``mmax``.
+
+    Warnings
+    --------
+    The function can also return the design matrix for the field components at
+    the geographic poles, i.e. where ``theta == 0.`` or ``theta == 180.``.
+    However, users should be careful when doing this because the vector basis
+    for spherical geocentric coordinates,
+    :math:`{{\\mathbf{e}_r, \\mathbf{e}_\\theta, \\mathbf{e}_\\phi}}`,
+    depends on longitude, which is not well defined at the poles. That is,
+    at the poles, any value for the longitude maps to the same location in
+    euclidean coordinates but gives a different vector basis in spherical
+    geocentric coordinates. Nonetheless, by choosing a specific value for the
+    longitude at the poles, users can define the vector basis, which then
+    establishes the meaning of the spherical geocentric components. The vector
+    basis for the horizontal components is defined as
+
+    .. math::
+
+        \\mathbf{e}_\\theta &= \\cos\\theta\\cos\\phi\\mathbf{e}_x -
+            \\cos\\theta\\sin\\phi\\mathbf{e}_y - \\sin\\theta\\mathbf{e}_z\\\\
+        \\mathbf{e}_\\phi &= -\\sin\\phi\\mathbf{e}_x +
+            \\cos\\phi\\mathbf{e}_y
+
+    Hence, at the geographic north pole as given by ``theta = 0.`` and
+    ``phi = 0.`` (user input), the returned design matrix ``A_theta``
+    will be for components along the direction
+    :math:`\\mathbf{e}_\\theta = \\mathbf{e}_x` and ``A_phi`` for components
+    along :math:`\\mathbf{e}_\\phi = \\mathbf{e}_y`. However,
+    if ``phi = 180.`` is chosen, ``A_theta`` will be for components along
+    :math:`\\mathbf{e}_\\theta = -\\mathbf{e}_x` and ``A_phi``
+    along :math:`\\mathbf{e}_\\phi = -\\mathbf{e}_y`.
+
+    Examples
+    --------
+    Create the design matrices given 4 locations on the Earth's surface:
+
+    >>> r = 6371.2
+    >>> theta = np.array([90., 100., 110., 120.])
+    >>> phi = 0.
+    >>> A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=1)
+    >>> A_radius
+    array([[ 1.22464680e-16, 2.00000000e+00, 0.00000000e+00],
+           [-3.47296355e-01, 1.96961551e+00, 0.00000000e+00],
+           [-6.84040287e-01, 1.87938524e+00, 0.00000000e+00],
+           [-1.00000000e+00, 1.73205081e+00, 0.00000000e+00]])
+
+    Say, only the axial dipole coefficient is non-zero, what is the magnetic
+    field in terms of spherical geocentric components?
+
+    >>> m = np.array([-30000, 0., 0.])  # model coefficients in nT
+    >>> Br = A_radius @ m; Br
+    array([-3.67394040e-12, 1.04188907e+04, 2.05212086e+04, 3.00000000e+04])
+    >>> Bt = A_theta @ m; Bt
+    array([-30000. , -29544.23259037, -28190.77862358, -25980.76211353])
+    >>> Bp = A_phi @ m; Bp
+    array([0., 0., 0., 0.])
+
+    A more complete example is given below:
+
+    .. code-block:: python
+
+        import numpy as np
+        from chaosmagpy.model_utils import design_gauss, synth_values
+
+        nmax = 5  # desired truncation degree, i.e. 35 model coefficients
+        coeffs = np.arange(35)  # example model coefficients
+
+        # example locations
+        N = 10
+        radius = 6371.2  # Earth's surface
+        phi = np.linspace(-180., 180., num=N)  # azimuth in degrees
+        theta = np.linspace(1., 179., num=N)  # colatitude in degrees
+
+        # compute design matrices to compute predictions of the
+        # field components from the model coefficients, each is of shape N x 35
+        A_radius, A_theta, A_phi = design_gauss(r, theta, phi, nmax=nmax)
+
+        # magnetic components computed from the model
+        Br_pred = A_radius @ coeffs
+        Bt_pred = A_theta @ coeffs
+        Bp_pred = A_phi @ coeffs
+
+        # compute the magnetic components directly from the coefficients
+        Br, Bt, Bp = synth_values(coeffs, radius, theta, phi)
+        np.linalg.norm(Br - Br_pred)  # approx 0.
+        np.linalg.norm(Bt - Bt_pred)  # approx 0.
+        np.linalg.norm(Bp - Bp_pred)  # approx 0.
+
+    """
+
+    # ensure ndarray inputs
+    radius = (np.asarray(radius, dtype=float)
+              / config_utils.basicConfig['params.r_surf'])
+    theta = np.asarray(theta, dtype=float)
+    phi = np.asarray(phi, dtype=float)
+
+    # get shape of broadcasted result
+    try:
+        b = np.broadcast(radius, theta, phi)
+
+    except ValueError:
+        print('Cannot broadcast grid shapes:')
+        print(f'radius: {radius.shape}')
+        print(f'theta:  {theta.shape}')
+        print(f'phi:    {phi.shape}')
+        raise
+
+    shape = b.shape
+
+    theta_min = np.amin(theta)
+    theta_max = np.amax(theta)
+
+    # check if poles are included
+    if (theta_min <= 0.0) or (theta_max >= 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
+            warnings.warn('Input coordinates include the poles.')
+            poles = True
+        else:
+            raise ValueError('Colatitude outside bounds [0, 180].')
+    else:
+        poles = False
+
+    # set internal source as default
+    if source is None:
+        source = 'internal'
+
+    assert nmax > 0, '"nmax" must be greater than zero.'
+
+    nmin = 1 if nmin is None else int(nmin)
+    assert nmin <= nmax, '"nmin" must be smaller than "nmax".'
+    assert nmin > 0, '"nmin" must be greater than zero.'
+
+    mmax = nmax if mmax is None else int(mmax)
+    assert mmax <= nmax, '"mmax" must be smaller than "nmax".'
+    assert mmax >= 0, '"mmax" must be greater than or equal to zero.'
+
+    # initialize radial dependence given the source
+    if source == 'internal':
+        r_n = radius**(-(nmin+2))
+    elif source == 'external':
+        r_n = radius**(nmin-1)
+    else:
+        raise ValueError("Source must be either 'internal' or 'external'.")
+
+    # compute associated Legendre polynomials as (n, m, theta-points)-array
+    Pnm = legendre_poly(nmax, theta)
+    sinth = Pnm[1, 1]
+
+    phi = np.radians(phi)
+
+    # find the poles
+    if poles:
+        where_poles = (theta == 0.) | (theta == 180.)
+
+    # compute the number of dimensions based on nmax, nmin, mmax
+    if mmax >= (nmin-1):
+        dim = int(mmax*(mmax+2) + (nmax-mmax)*(2*mmax+1) - nmin**2 + 1)
+    else:
+        dim = int((nmax-nmin+1)*(2*mmax+1))
+
+    # allocate A_radius, A_theta, A_phi in memeory
+    A_radius = np.zeros(shape + (dim,))
+    A_theta = np.zeros(shape + (dim,))
+    A_phi = np.zeros(shape + (dim,))
+
+    num = 0
+    for n in range(nmin, nmax+1):
+
+        if source == 'internal':
+            A_radius[..., num] = (n+1) * Pnm[n, 0] * r_n
+        else:
+            A_radius[..., num] = -n * Pnm[n, 0] * r_n
+
+        A_theta[..., num] = -Pnm[0, n+1] * r_n
+
+        num += 1
+        for m in range(1, min(n, mmax)+1):
+
+            cmp = np.cos(m*phi)
+            smp = np.sin(m*phi)
+
+            if source == 'internal':
+                A_radius[..., num] = (n+1) * Pnm[n, m] * r_n * cmp
+                A_radius[..., num+1] = (n+1) * Pnm[n, m] * r_n * smp
+            else:
+                A_radius[..., num] = -n * Pnm[n, m] * r_n * cmp
+                A_radius[..., num+1] = -n * Pnm[n, m] * r_n * smp
+
+            A_theta[..., num] = -Pnm[m, n+1] * r_n * cmp
+            A_theta[..., num+1] = -Pnm[m, n+1] * r_n * smp
+
+            # need special treatment at the poles because Pnm/sinth = 0/0 for
+            # theta in {0., 180.},
+            # use L'Hopital's rule to take the limit:
+            # lim Pnm/sinth = k*dPnm | theta in {0., 180}
+            # (evaluated at poles, where k=1 for theta=0 and k=-1 for
+            # theta=180.); k = costh = P[1, 0] at poles for convenience
+            if poles:
+                div_Pnm = np.where(where_poles, Pnm[m, n+1], Pnm[n, m])
+                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]
+                div_Pnm[~where_poles] /= sinth[~where_poles]
+            else:
+                div_Pnm = Pnm[n, m] / sinth
+
+            A_phi[..., num] = m * div_Pnm * r_n * smp
+            A_phi[..., num+1] = -m * div_Pnm * r_n * cmp
+
+            num += 2
+
+        # update radial dependence given the source
+        if source == 'internal':
+            r_n = r_n / radius
+        else:
+            r_n = r_n * radius
+
+    return A_radius, A_theta, A_phi
+
+
+def legendre_poly(nmax, theta):
+    """
+    Returns associated Legendre polynomials :math:`P_n^m(\\cos\\theta)`
+    (Schmidt quasi-normalized) and the derivative
+    :math:`dP_n^m(\\cos\\theta)/d\\theta` evaluated at :math:`\\theta`.
+
+    Parameters
+    ----------
+    nmax : int, positive
+        Maximum degree of the spherical expansion.
+    theta : ndarray, shape (...)
+        Colatitude in degrees :math:`[0^\\circ, 180^\\circ]`
+        of arbitrary shape.
+
+    Returns
+    -------
+    Pnm : ndarray, shape (n, m, ...)
+          Evaluated values and derivatives, grid shape is appended as trailing
+          dimensions. :math:`P_n^m(\\cos\\theta)` := ``Pnm[n, m, ...]`` and
+          :math:`dP_n^m(\\cos\\theta)/d\\theta` := ``Pnm[m, n+1, ...]``
+
+    References
+    ----------
+    Based on Equations 26-29 and Table 2 in:
+
+    Langel, R. A., "Geomagnetism - The main field", Academic Press, 1987,
+    chapter 4
+
+    """
+
+    costh = np.cos(np.radians(theta))
+    # sine of the angle from the nearest pole, sqrt(1-cos^2) is inaccurate there
+    theta = np.asarray(theta, dtype=float)
+    sinth = np.abs(np.sin(np.radians(np.minimum(theta, 180.0 - theta))))
+
+    Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
+    Pnm[0, 0] = 1.  # is copied into trailing dimensions
+    Pnm[1, 1] = sinth  # write theta into trailing dimenions via broadcasting
+
+    rootn = np.sqrt(np.arange(2 * nmax**2 + 1))
+
+    # Recursion relations after Langel "The Main Field" (1987),
+    # eq. (27) and Table 2 (p. 256)
+    for m in range(nmax):
+        Pnm_tmp = rootn[m+m+1] * Pnm[m, m]
+        Pnm[m+1, m] = costh * Pnm_tmp
+
+        if m > 0:
+            Pnm[m+1, m+1] = sinth*Pnm_tmp / rootn[m+m+2]
+
+        for n in range(m+2, nmax+1):
+            d = n * n - m * m
+            e = n + n - 1
+            Pnm[n, m] = ((e * costh * Pnm[n-1, m] - rootn[d-e] * Pnm[n-2, m])
+                         / rootn[d])
+
+    # dP(n,m) = Pnm(m,n+1) is the derivative of P(n,m) vrt. theta
+    Pnm[0, 2] = -Pnm[1, 1]
+    Pnm[1, 2] = Pnm[1, 0]
+    for n in range(2, nmax+1):
+        Pnm[0, n+1] = -np.sqrt((n*n + n) / 2) * Pnm[n, 1]
+        Pnm[1, n+1] = ((np.sqrt(2 * (n*n + n)) * Pnm[n, 0]
+                       - np.sqrt((n*n + n - 2)) * Pnm[n, 2]) / 2)
+
+        for m in range(2, n):
+            Pnm[m, n+1] = (0.5*(np.sqrt((n + m) * (n - m + 1)) * Pnm[n, m-1]
+                           - np.sqrt((n + m + 1) * (n - m)) * Pnm[n, m+1]))
+
+        Pnm[n, n+1] = np.sqrt(2 * n) * Pnm[n, n-1] / 2
+
+    return Pnm
+
+
+def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
+    """
+    Compute the spatial power spectrum.
+
+    Parameters
+    ----------
+    coeffs : ndarray, shape (..., N*(N+2))
+        Spherical harmonic coefficients for degree `N`.
+    radius : float, optional
+        Radius in kilometers (defaults to mean Earth's surface radius).
+        It has no effect for ``source='toroidal'``.
+    nmax : int, optional
+        Maximum spherical degree (defaults to `N`).
+    source : {'internal', 'external', 'toroidal'}
+        Source of the field model (defaults to internal).
+    axis : int, optional
+        Axis of ``coeffs`` along which to compute the spatial power spectrum
+        (defaults to -1, last dimension of ``coeffs``).
+
+    Returns
+    -------
+    W_n : ndarray, shape (..., ``nmax``)
+        Power spectrum for degrees up to degree ``nmax``
+
+    Notes
+    -----
+    The spatial power spectrum for a potential field is defined as
+
+    .. math::
+
+        W_n(r) &= \\langle|\\mathbf{B}|^2\\rangle
+             = \\frac{1}{4\\pi}\\iint_\\Omega |\\mathbf{B}|^2 \\mathrm{d}
+               \\Omega \\\\
+             &= W_n^\\mathrm{i}(r) + W_n^\\mathrm{e}(r) + W_n^\\mathrm{T}
+
+    where the internal :math:`W_n^\\mathrm{i}`, external
+    :math:`W_n^\\mathrm{e}` and the non-potential toroidal
+    :math:`W_n^\\mathrm{T}` spatial power spectra are
+
+    .. math::
+
+        W_n^\\mathrm{i}(r) &= (n+1)\\left(\\frac{a}{r}\\right)^{2n+4}
+                              \\sum_{m=0}^n [(g_n^m)^2 + (h_n^m)^2] \\\\
+        W_n^\\mathrm{e}(r) &= n\\left(\\frac{r}{a}\\right)^{2n-2}\\sum_{m=0}^n
+                              [(q_n^m)^2 + (s_n^m)^2] \\\\
+        W_n^\\mathrm{T}    &= \\frac{n(n+1)}{2n+1}\\sum_{m=0}^n
+                              [(T_n^{m,c})^2 + (T_n^{m,s})^2]
+
+    References
+    ----------
+    Sabaka, T. J.; Hulot, G. & Olsen, N.,
+    "Mathematical properties relevant to geomagnetic field modeling",
+    Handbook of geomathematics, Springer, 2010, 503-538
+
+    """
+
+    axis = -1 if axis is None else int(axis)
+    if radius is None:
+        r = 1
+    else:
+        r = config_utils.basicConfig['params.r_surf'] / radius
+
+    N = int(np.sqrt(coeffs.shape[axis] + 1) - 1)  # maximum degree
+
+    if nmax is None:
+        nmax = N
+    elif nmax > N:
+        print(f'Incompatible maximum degree nmax = {nmax}, '
+              f'setting nmax to {N}.')
+        nmax = N
+
+    source = 'internal' if source is None else source
+
+    if source == 'internal':
+        def factor(n, r):
+            return (n+1) * r**(2*n+4)
+    elif source == 'external':
+        def factor(n, r):
+            return n * r**(-(2*n-2))
+    elif source == 'toroidal':
+        def factor(n, _):
+            return n*(n+1) / (2*n+1)
+    else:
+        raise ValueError(
+            'Unknown source. Use `internal`, `external` or `toroidal`.')
+
+    shape = list(coeffs.shape)
+    shape[axis] = nmax  # replace dim of axis with nmax
+    W_n = np.empty(shape)
+
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+
+        slc1 = coeffs.ndim*[slice(None), ]  # index for summation
+        slc1[axis] = slice(min, max)
+
+        slc2 = coeffs.ndim*[slice(None), ]  # index for insertion into output
+        slc2[axis] = n-1
+
+        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,
+                                               axis=axis)
+
+    return W_n
+
+
+def degree_correlation(coeffs_1, coeffs_2):
+    """
+    Correlation per spherical harmonic degree between two models 1 and 2.
+
+    Parameters
+    ----------
+    coeffs_1, coeffs_2 : ndarray, shape (N,)
+        Two sets of coefficients of equal length `N`.
+
+    Returns
+    -------
+    C_n : ndarray, shape (nmax,)
+        Degree correlation of the two models. There are `N = nmax(nmax+2)`
+        coefficients.
+
+    """
+
+    if coeffs_1.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_1.ndim} != 1)')
+
+    if coeffs_2.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_2.ndim} != 1)')
+
+    if coeffs_1.size != coeffs_2.size:
+        raise ValueError(
+            'Number of coefficients must be the same '
+            '({0} != {1}).'.format(coeffs_1.size, coeffs_2.size))
+
+    nmax = int(np.sqrt(coeffs_1.size + 1) - 1)
+
+    C_n = np.zeros((nmax,))
+    R_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_1
+    S_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_2
+
+    coeffs_12 = coeffs_1*coeffs_2
+
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+        R_n[n-1] = np.sum(coeffs_1[min:max]**2)
+        S_n[n-1] = np.sum(coeffs_2[min:max]**2)
+        C_n[n-1] = (np.sum(coeffs_12[min:max]) / np.sqrt(R_n[n-1]*S_n[n-1]))
+
+    return C_n
+
+
+def sensitivity(coeffs, coeffs_true):
+    """
+    Sensitivity (degree normalized error) of the input coefficients with
+    respect to the target/true coefficients.
+
+    Parameters
+    ----------
+    coeffs: ndarray, shape (N,)
+        Input spherical harmonic coefficients.
+    coeffs_true: ndarray, shape (N,)
+        Target/true spherical harmonic coefficients.
+
+    Returns
+    -------
+    S: ndarray, shape (N,)
+        Sensitivity of ``coeffs`` with respect to ``coeffs_true``.
+
+    Examples
+    --------
+    >>> import chaosmagpy as cp
+    >>> import numpy as np
+    >>> coeffs = np.array([1., 2., 5.])  # estimated degree 1 coefficients
+    >>> coeffs_true = np.array([1., 2., 3.])  # target degree 1 coefficients
+    >>> cp.model_utils.sensitivity(coeffs, coeffs_true)
+    array([0., 0., 0.63245553])
+
+    """
+    if coeffs.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs.ndim} != 1)')
+
+    if coeffs_true.ndim != 1:
+        raise ValueError(f'Only 1-D input allowed ({coeffs_true.ndim} != 1)')
+
+    if coeffs.size != coeffs_true.size:
+        raise ValueError(
+            'Number of coefficients must be the same '
+            '({0} != {1}).'.format(coeffs.size, coeffs_true.size))
+
+    nmax = int(np.sqrt(coeffs.size + 1) - 1)
+
+    S = coeffs - coeffs_true
+
+    # apply degree-dependent scaling
+    for n in range(1, nmax+1):
+        min = n**2 - 1
+        max = min + (2*n + 1)
+
+        S[min:max] *= 1. / np.sqrt(np.sum(coeffs_true[min:max]**2) / (2*n + 1))
+
+    return S
diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index a70e1f2..c5dac8d 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -1,373 +1,373 @@
-# Copyright (C) 2024 Clemens Kloss
-#
-# This file is part of ChaosMagPy.
-#
-# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
-# repository for full licensing details.
-
-"""
-`chaosmagpy.plot_utils` provides functions for plotting model outputs.
-
-.. autosummary::
-    :toctree: functions
-
-    plot_timeseries
-    plot_maps
-    plot_power_spectrum
-    nio_colormap
-
-"""
-
-import numpy as np
-import warnings
-import shapefile
-from . import data_utils
-from . import config_utils
-
-try:
-    import matplotlib.pyplot as plt
-    import matplotlib.ticker as ticker
-    import matplotlib.dates as mdates
-    from matplotlib.colors import LinearSegmentedColormap
-except ImportError:
-    warnings.warn('Could not import Matplotlib. Plotting methods and '
-                  'functions will raise a NameError.')
-
-
-def plot_timeseries(time, *args, **kwargs):
-    """
-    Creates line plots for the timeseries of the input arguments.
-
-    Parameters
-    ----------
-    time : ndarray, shape (N,)
-        Array containing time in modified Julian dates.
-    *args : ndarray, shape (N, k)
-        Array containing `k` columns of values to plot against time. Several
-        arrays can be provided as separated arguments.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    ylabel : string
-        Label of the vertical axis (defaults to an empty string).
-    layout : 2-tuple of int
-        Layout of the subplots (defaults to vertically stacked subplots).
-    **kwargs : keywords
-        Other options to pass to matplotlib plotting method.
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    n = len(args)  # number of subplots
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.8*n*config_utils.basicConfig['plots.figure_width']),
-        'titles': n*[''],
-        'ylabel': '',
-        'layout': (n, 1)
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    # remove keywords that are not intended for plot
-    figsize = kwargs.pop('figsize')
-    layout = kwargs.pop('layout')
-    titles = kwargs.pop('titles')
-    ylabel = kwargs.pop('ylabel')
-
-    if layout[0]*layout[1] != n:
-        raise ValueError('Plot layout is not compatible with the number of '
-                         'produced subplots.')
-
-    date_time = data_utils.timestamp(np.ravel(time))
-
-    fig, axes = plt.subplots(layout[0], layout[1], sharex='all',
-                             figsize=figsize, squeeze=False)
-
-    for ax, component, title in zip(axes.flat, args, titles):
-        ax.plot(date_time, component, **kwargs)
-        ax.set_title(title)
-        ax.grid(True)
-        ax.set(ylabel=ylabel, xlabel='time')
-        fig.autofmt_xdate()
-        ax.fmt_xdata = mdates.DateFormatter('%Y-%m-%d-%h')
-
-    fig.tight_layout(rect=(0, 0.02, 1, 1))
-
-
-def plot_maps(theta_grid, phi_grid, *args, **kwargs):
-    """
-    Plots global maps of the input arguments.
-
-    Parameters
-    ----------
-    theta_grid : ndarray
-        Array containing the colatitude in degrees.
-    phi_grid : ndarray
-        Array containing the longitude in degrees.
-    *args : ndarray
-        Array of values to plot on the global map. Several
-        arrays can be provided as separated arguments.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    label : string
-        Colorbar label (defaults to an empty string).
-    layout : 2-tuple of int
-        Layout of the subplots (defaults to vertically stacked subplots).
-    cmap : str
-        Colormap code (defaults to ``'PuOr_r'`` colormap).
-    limiter : function, lambda expression
-        Function to compute symmetric colorbar limits (defaults to maximum of
-        the absolute values in the input, or use ``'vmin'``, ``'vmax'``
-        keywords instead).
-    projection : str
-        Projection of the target frame (defaults to `'mollweide'`).
-    **kwargs : keywords
-        Other options to pass to matplotlib :func:`pcolormesh` method.
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    n = len(args)  # number of plots
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.4*n*config_utils.basicConfig['plots.figure_width']),
-        'titles': n*[''],
-        'label': '',
-        'layout': (n, 1),
-        'cmap': 'PuOr_r',
-        'limiter': lambda x: np.amax(np.abs(x)),  # maximum value
-        'projection': 'mollweide',
-        'shading': 'auto'
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    # remove keywords that are not intended for pcolormesh
-    figsize = kwargs.pop('figsize')
-    titles = kwargs.pop('titles')
-    label = kwargs.pop('label')
-    limiter = kwargs.pop('limiter')
-    projection = kwargs.pop('projection')
-    layout = kwargs.pop('layout')
-
-    if layout[0]*layout[1] != n:
-        raise ValueError('Plot layout is not compatible with the number of '
-                         'produced subplots.')
-
-    # load shapefile with the coastline
-    shp = config_utils.basicConfig['file.shp_coastline']
-
-    # create axis handle
-    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize,
-                             subplot_kw=dict(projection=projection),
-                             squeeze=False)
-
-    # make subplots
-    for ax, component, title in zip(axes.flat, args, titles):
-
-        # evaluate colorbar limits depending on vmax/vmin in kwargs
-        kwargs.setdefault('vmax', limiter(component))
-        kwargs.setdefault('vmin', -limiter(component))
-
-        with shapefile.Reader(shp) as sf:
-
-            for rec in sf.shapeRecords():
-                lon = np.radians([point[0] for point in rec.shape.points[:]])
-                lat = np.radians([point[1] for point in rec.shape.points[:]])
-
-                ax.plot(lon, lat, color='k', linewidth=0.8)
-
-        # produce colormesh and evaluate keywords (defaults and input)
-        pc = ax.pcolormesh(np.radians(phi_grid), np.radians(90. - theta_grid),
-                           component, **kwargs)
-
-        plt.colorbar(pc, ax=ax, extend='both', label=label)
-
-        ax.xaxis.set_ticks(np.radians(np.linspace(-180., 180., num=13)))
-        ax.yaxis.set_ticks(np.radians(np.linspace(-60., 60., num=5)))
-        ax.xaxis.set_major_formatter('')
-        ax.grid(True)
-
-        ax.set_title(title)
-
-    fig.tight_layout()
-
-
-def plot_power_spectrum(spectrum, **kwargs):
-    """
-    Plot the spherical harmonic spectrum.
-
-    Parameters
-    ----------
-    spectrum : ndarray, shape (N,)
-        Spherical harmonics spectrum of degree `N`.
-
-    Other Parameters
-    ----------------
-    figsize : 2-tuple of floats
-        Figure dimension (width, height) in inches.
-    titles : list of strings
-        Subplot titles (defaults to empty strings).
-    ylabel : string
-        Label of the vertical axis (defaults to an empty string).
-    **kwargs
-        Keywords passed to :func:`matplotlib.pyplot.semilogy`
-
-    Notes
-    -----
-    For more customization get access to the figure and axes handles
-    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
-    right after the call to this plotting function.
-
-    """
-
-    defaults = {
-        'figsize': (config_utils.basicConfig['plots.figure_width'],
-                    0.8*config_utils.basicConfig['plots.figure_width']),
-        'titles': '',
-        'ylabel': ''
-    }
-
-    kwargs = defaultkeys(defaults, kwargs)
-
-    figsize = kwargs.pop('figsize')
-    titles = kwargs.pop('titles')
-    ylabel = kwargs.pop('ylabel')
-
-    degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    # remove non-positive values for log, without changing the input
-    spectrum = np.where(spectrum == 0, np.nan, spectrum)
-
-    # create axis handle
-    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-
-    ax.semilogy(degrees, spectrum, **kwargs)
-    ax.set_title(titles)
-    ax.grid(True, which='minor', linestyle=':')
-    ax.grid(True, which='major', linestyle='-', axis='both')
-    ax.set(ylabel=ylabel, xlabel='degree')
-
-    ax.xaxis.set_major_locator(ticker.MaxNLocator(integer=True))
-
-    fig.tight_layout()
-
-
-def fmt(x, pos):
-    # format=ticker.FuncFormatter(fmt)
-    a, b = '{:.1e}'.format(x).split('e')
-    b = int(b)
-
-    if a == '0.0':
-        return r'${}$'.format(a)
-    else:
-        return r'${}$e${}$'.format(a, b)
-
-
-def defaultkeys(defaults, keywords):
-    """
-    Return dictionary of default keywords. Overwrite any keywords in
-    ``defaults`` using keywords from ``keywords``, except if they are None.
-
-    Parameters
-    ----------
-    defaults, keywords : dict
-        Dictionary of default and replacing keywords.
-
-    Returns
-    -------
-    keywords : dict
-
-    """
-
-    # overwrite value with the one in kwargs, if not then use the default
-    for key, value in defaults.items():
-        if keywords.setdefault(key, value) is None:
-            keywords[key] = value
-
-    return keywords
-
-
-def nio_colormap():
-    """
-    Define custom-built colormap 'nio' and register. Can be called in plots as
-    ``cmap='nio'`` after importing this module.
-
-    .. plot::
-        :include-source: false
-
-        import numpy as np
-        import chaosmagpy as cp
-        import matplotlib.pyplot as plt
-
-        gradient = np.linspace(0, 1, 256)
-        gradient = np.vstack((gradient, gradient))
-
-        figh = 0.35 + 0.15 + 0.22
-        fig, ax = plt.subplots(1, 1, figsize=(6.4, figh))
-        fig.subplots_adjust(top=0.792, bottom=0.208, left=0.023, right=0.977)
-        ax.imshow(gradient, aspect='auto', cmap='nio')
-        # ax.set_axis_off()
-        ax.get_xaxis().set_visible(False)
-        ax.get_yaxis().set_visible(False)
-        plt.show()
-
-    """
-
-    cdict = {'red':   ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 0.0000, 0.0000),
-                       (0.3333, 0.0000, 0.0000),
-                       (0.5020, 1.0000, 1.0000),
-                       (0.6667, 1.0000, 1.0000),
-                       (0.8333, 1.0000, 1.0000),
-                       (1.0000, 1.0000, 1.0000)),
-
-             'green': ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 0.0000, 0.0000),
-                       (0.3333, 1.0000, 1.0000),
-                       (0.5020, 1.0000, 1.0000),
-                       (0.6667, 1.0000, 1.0000),
-                       (0.8333, 0.0000, 0.0000),
-                       (1.0000, 0.0000, 0.0000)),
-
-             'blue':  ((0.0000, 0.0000, 0.0000),
-                       (0.1667, 1.0000, 1.0000),
-                       (0.3333, 1.0000, 1.0000),
-                       (0.5020, 1.0000, 1.0000),  # >0.5 for white (intpl bug?)
-                       (0.6667, 0.0000, 0.0000),
-                       (0.8333, 0.0000, 0.0000),
-                       (1.0000, 1.0000, 1.0000))}
-
-    return LinearSegmentedColormap('nio', cdict)
-
-
-# register cmap name for convenient use
-try:
-    plt.colormaps.register(cmap=nio_colormap())
-except NameError:
-    pass
-
-
-if __name__ == '__main__':
-    pass
+# Copyright (C) 2024 Clemens Kloss
+#
+# This file is part of ChaosMagPy.
+#
+# ChaosMagPy is released under the MIT license. See LICENSE in the root of the
+# repository for full licensing details.
+
+"""
+`chaosmagpy.plot_utils` provides functions for plotting model outputs.
+
+.. autosummary::
+    :toctree: functions
+
+    plot_timeseries
+    plot_maps
+    plot_power_spectrum
+    nio_colormap
+
+"""
+
+import numpy as np
+import warnings
+import shapefile
+from . import data_utils
+from . import config_utils
+
+try:
+    import matplotlib.pyplot as plt
+    import matplotlib.ticker as ticker
+    import matplotlib.dates as mdates
+    from matplotlib.colors import LinearSegmentedColormap
+except ImportError:
+    warnings.warn('Could not import Matplotlib. Plotting methods and '
+                  'functions will raise a NameError.')
+
+
+def plot_timeseries(time, *args, **kwargs):
+    """
+    Creates line plots for the timeseries of the input arguments.
+
+    Parameters
+    ----------
+    time : ndarray, shape (N,)
+        Array containing time in modified Julian dates.
+    *args : ndarray, shape (N, k)
+        Array containing `k` columns of values to plot against time. Several
+        arrays can be provided as separated arguments.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    ylabel : string
+        Label of the vertical axis (defaults to an empty string).
+    layout : 2-tuple of int
+        Layout of the subplots (defaults to vertically stacked subplots).
+    **kwargs : keywords
+        Other options to pass to matplotlib plotting method.
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    n = len(args)  # number of subplots
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.8*n*config_utils.basicConfig['plots.figure_width']),
+        'titles': n*[''],
+        'ylabel': '',
+        'layout': (n, 1)
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    # remove keywords that are not intended for plot
+    figsize = kwargs.pop('figsize')
+    layout = kwargs.pop('layout')
+    titles = kwargs.pop('titles')
+    ylabel = kwargs.pop('ylabel')
+
+    if layout[0]*layout[1] != n:
+        raise ValueError('Plot layout is not compatible with the number of '
+                         'produced subplots.')
+
+    date_time = data_utils.timestamp(np.ravel(time))
+
+    fig, axes = plt.subplots(layout[0], layout[1], sharex='all',
+                             figsize=figsize, squeeze=False)
+
+    for ax, component, title in zip(axes.flat, args, titles):
+        ax.plot(date_time, component, **kwargs)
+        ax.set_title(title)
+        ax.grid(True)
+        ax.set(ylabel=ylabel, xlabel='time')
+        fig.autofmt_xdate()
+        ax.fmt_xdata = mdates.DateFormatter('%Y-%m-%d-%h')
+
+    fig.tight_layout(rect=(0, 0.02, 1, 1))
+
+
+def plot_maps(theta_grid, phi_grid, *args, **kwargs):
+    """
+    Plots global maps of the input arguments.
+
+    Parameters
+    ----------
+    theta_grid : ndarray
+        Array containing the colatitude in degrees.
+    phi_grid : ndarray
+        Array containing the longitude in degrees.
+    *args : ndarray
+        Array of values to plot on the global map. Several
+        arrays can be provided as separated arguments.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    label : string
+        Colorbar label (defaults to an empty string).
+    layout : 2-tuple of int
+        Layout of the subplots (defaults to vertically stacked subplots).
+    cmap : str
+        Colormap code (defaults to ``'PuOr_r'`` colormap).
+    limiter : function, lambda expression
+        Function to compute symmetric colorbar limits (defaults to maximum of
+        the absolute values in the input, or use ``'vmin'``, ``'vmax'``
+        keywords instead).
+    projection : str
+        Projection of the target frame (defaults to `'mollweide'`).
+    **kwargs : keywords
+        Other options to pass to matplotlib :func:`pcolormesh` method.
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    n = len(args)  # number of plots
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.4*n*config_utils.basicConfig['plots.figure_width']),
+        'titles': n*[''],
+        'label': '',
+        'layout': (n, 1),
+        'cmap': 'PuOr_r',
+        'limiter': lambda x: np.amax(np.abs(x)),  # maximum value
+        'projection': 'mollweide',
+        'shading': 'auto'
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    # remove keywords that are not intended for pcolormesh
+    figsize = kwargs.pop('figsize')
+    titles = kwargs.pop('titles')
+    label = kwargs.pop('label')
+    limiter = kwargs.pop('limiter')
+    projection = kwargs.pop('projection')
+    layout = kwargs.pop('layout')
+
+    if layout[0]*layout[1] != n:
+        raise ValueError('Plot layout is not compatible with the number of '
+                         'produced subplots.')
+
+    # load shapefile with the coastline
+    shp = config_utils.basicConfig['file.shp_coastline']
+
+    # create axis handle
+    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize,
+                             subplot_kw=dict(projection=projection),
+                             squeeze=False)
+
+    # make subplots
+    for ax, component, title in zip(axes.flat, args, titles):
+
+        # evaluate colorbar limits depending on vmax/vmin in kwargs
+        kwargs.setdefault('vmax', limiter(component))
+        kwargs.setdefault('vmin', -limiter(component))
+
+        with shapefile.Reader(shp) as sf:
+
+            for rec in sf.shapeRecords():
+                lon = np.radians([point[0] for point in rec.shape.points[:]])
+                lat = np.radians([point[1] for point in rec.shape.points[:]])
+
+                ax.plot(lon, lat, color='k', linewidth=0.8)
+
+        # produce colormesh and evaluate keywords (defaults and input)
+        pc = ax.pcolormesh(np.radians(phi_grid), np.radians(90. - theta_grid),
+                           component, **kwargs)
+
+        plt.colorbar(pc, ax=ax, extend='both', label=label)
+
+        ax.xaxis.set_ticks(np.radians(np.linspace(-180., 180., num=13)))
+        ax.yaxis.set_ticks(np.radians(np.linspace(-60., 60., num=5)))
+        ax.xaxis.set_major_formatter('')
+        ax.grid(True)
+
+        ax.set_title(title)
+
+    fig.tight_layout()
+
+
+def plot_power_spectrum(spectrum, **kwargs):
+    """
+    Plot the spherical harmonic spectrum.
+
+    Parameters
+    ----------
+    spectrum : ndarray, shape (N,)
+        Spherical harmonics spectrum of degree `N`.
+
+    Other Parameters
+    ----------------
+    figsize : 2-tuple of floats
+        Figure dimension (width, height) in inches.
+    titles : list of strings
+        Subplot titles (defaults to empty strings).
+    ylabel : string
+        Label of the vertical axis (defaults to an empty string).
+    **kwargs
+        Keywords passed to :func:`matplotlib.pyplot.semilogy`
+
+    Notes
+    -----
+    For more customization get access to the figure and axes handles
+    through matplotlib by using ``fig = plt.gcf()`` and ``axes = fig.axes``
+    right after the call to this plotting function.
+
+    """
+
+    defaults = {
+        'figsize': (config_utils.basicConfig['plots.figure_width'],
+                    0.8*config_utils.basicConfig['plots.figure_width']),
+        'titles': '',
+        'ylabel': ''
+    }
+
+    kwargs = defaultkeys(defaults, kwargs)
+
+    figsize = kwargs.pop('figsize')
+    titles = kwargs.pop('titles')
+    ylabel = kwargs.pop('ylabel')
+
+    degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
+    # remove non-positive values for log, without changing the input
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
+
+    # create axis handle
+    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
+
+    ax.semilogy(degrees, spectrum, **kwargs)
+    ax.set_title(titles)
+    ax.grid(True, which='minor', linestyle=':')
+    ax.grid(True, which='major', linestyle='-', axis='both')
+    ax.set(ylabel=ylabel, xlabel='degree')
+
+    ax.xaxis.set_major_locator(ticker.MaxNLocator(integer=True))
+
+    fig.tight_layout()
+
+
+def fmt(x, pos):
+    # format=ticker.FuncFormatter(fmt)
+    a, b = '{:.1e}'.format(x).split('e')
+    b = int(b)
+
+    if a == '0.0':
+        return r'${}$'.format(a)
+    else:
+        return r'${}$e${}$'.format(a, b)
+
+
+def defaultkeys(defaults, keywords):
+    """
+    Return dictionary of default keywords. Overwrite any keywords in
+    ``defaults`` using keywords from ``keywords``, except if they are None.
+
+    Parameters
+    ----------
+    defaults, keywords : dict
+        Dictionary of default and replacing keywords.
+
+    Returns
+    -------
+    keywords : dict
+
+    """
+
+    # overwrite value with the one in kwargs, if not then use the default
+    for key, value in defaults.items():
+        if keywords.setdefault(key, value) is None:
+            keywords[key] = value
+
+    return keywords
+
+
+def nio_colormap():
+    """
+    Define custom-built colormap 'nio' and register. Can be called in plots as
+    ``cmap='nio'`` after importing this module.
+
+    .. plot::
+        :include-source: false
+
+        import numpy as np
+        import chaosmagpy as cp
+        import matplotlib.pyplot as plt
+
+        gradient = np.linspace(0, 1, 256)
+        gradient = np.vstack((gradient, gradient))
+
+        figh = 0.35 + 0.15 + 0.22
+        fig, ax = plt.subplots(1, 1, figsize=(6.4, figh))
+        fig.subplots_adjust(top=0.792, bottom=0.208, left=0.023, right=0.977)
+        ax.imshow(gradient, aspect='auto', cmap='nio')
+        # ax.set_axis_off()
+        ax.get_xaxis().set_visible(False)
+        ax.get_yaxis().set_visible(False)
+        plt.show()
+
+    """
+
+    cdict = {'red':   ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 0.0000, 0.0000),
+                       (0.3333, 0.0000, 0.0000),
+                       (0.5020, 1.0000, 1.0000),
+                       (0.6667, 1.0000, 1.0000),
+                       (0.8333, 1.0000, 1.0000),
+                       (1.0000, 1.0000, 1.0000)),
+
+             'green': ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 0.0000, 0.0000),
+                       (0.3333, 1.0000, 1.0000),
+                       (0.5020, 1.0000, 1.0000),
+                       (0.6667, 1.0000, 1.0000),
+                       (0.8333, 0.0000, 0.0000),
+                       (1.0000, 0.0000, 0.0000)),
+
+             'blue':  ((0.0000, 0.0000, 0.0000),
+                       (0.1667, 1.0000, 1.0000),
+                       (0.3333, 1.0000, 1.0000),
+                       (0.5020, 1.0000, 1.0000),  # >0.5 for white (intpl bug?)
+                       (0.6667, 0.0000, 0.0000),
+                       (0.8333, 0.0000, 0.0000),
+                       (1.0000, 1.0000, 1.0000))}
+
+    return LinearSegmentedColormap('nio', cdict)
+
+
+# register cmap name for convenient use
+try:
+    plt.colormaps.register(cmap=nio_colormap())
+except NameError:
+    pass
+
+
+if __name__ == '__main__':
+    pass
-- 
2.43.0


From b3d7d555df2f93bda4370ba2f578fc56ec4b19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 39/43] fix: recognise the poles and illegal colatitudes among
 missing values

---
 chaosmagpy/coordinate_utils.py | 2 +-
 chaosmagpy/model_utils.py      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index e7a2ccb..31183ae 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1270,7 +1270,7 @@ def basevectors_use(theta, phi):
     theta = np.array(np.radians(theta))
     phi = np.array(np.radians(phi))
 
-    if (np.amin(theta) == 0.) or (np.amax(theta) == np.pi):
+    if np.any((theta == 0.) | (theta == np.pi)):
         raise ValueError("Basevectors are not defined at poles.")
 
     grid_shape = np.broadcast(theta, phi).shape
diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index cac8d24..db20a64 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -497,8 +497,8 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta = np.asarray(theta, dtype=float)
     phi = np.asarray(phi, dtype=float)
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignores nan
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
         if (theta_min >= 0.0) and (theta_max <= 180.0):
@@ -785,8 +785,8 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     shape = b.shape
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignores nan
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-- 
2.43.0


From 977314e4e92a48ed1caac2e71fef22e8a1089363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 40/43] fix: recognise times outside the model period among
 missing values

---
 chaosmagpy/chaos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f273cec..183112b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -153,7 +153,7 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
-        if (np.amin(time) < start) or (np.amax(time) > end):
+        if np.any((time < start) | (time > end)):
 
             dkey = {
                 'linear': 2,
@@ -1579,7 +1579,7 @@ str, {'internal', 'external'}
         # use static part to define modelled period
         start, end = self._period
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if np.any((time < start) | (time > end)):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
@@ -1787,7 +1787,7 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if np.any((time < start) | (time > end)):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
-- 
2.43.0


From 140b6d87a5b655a1492c8e9c9f22b233e5d7bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 41/43] fix: accept integer knots in colloc_matrix and
 design_matrix

---
 chaosmagpy/model_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index db20a64..0036f63 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -174,6 +174,9 @@ def colloc_matrix(x, knots, order, deriv=None):
     if deriv is None:
         deriv = 0
 
+    # required by the fast construction below
+    knots = np.ascontiguousarray(knots, dtype=float)
+
     if deriv >= order:
         return np.zeros((max(x.size, 1), knots.size - order))
 
-- 
2.43.0


From 05df40198b0762628bef1e3a8f2145391e43fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 42/43] fix: accept integer breaks and coefficients in
 synth_from_pp

---
 chaosmagpy/model_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 0036f63..248f4fa 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -335,8 +335,11 @@ def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
     # set grid option to false
     grid = False if grid is None else grid
 
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
+    # required by the fast construction below
+    coeffs = np.ascontiguousarray(coeffs[..., :nmax*(nmax+2)], dtype=float)
+    breaks = np.ascontiguousarray(breaks, dtype=float)
+
+    PP = PPoly.construct_fast(coeffs, breaks, extrapolate=False)
 
     PP = PP.derivative(nu=deriv)
     gauss_coeffs = PP(time) * 365.25**deriv
-- 
2.43.0


From eae28a4322b837e6b337f2ec5c55a5b47dea9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:18 +0000
Subject: [PATCH 43/43] fix: conductivity files with a single layer

A file with one row was read as a 1-D array, and q_response failed with an
IndexError.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 31183ae..f853ee8 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1928,7 +1928,7 @@ def q_response(frequency, nmax):
 
     # load conductivity model
     filepath = config_utils.basicConfig['file.Earth_conductivity']
-    sigma_model = np.loadtxt(filepath)
+    sigma_model = np.loadtxt(filepath, ndmin=2)
 
     radius_ref = 6371.2  # reference radius in km
 
-- 
2.43.0

