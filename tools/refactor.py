#!/usr/bin/env python3
"""Behaviour-preserving rewrites of dg1d, to see that the checks stay quiet on them (development tool; no check uses it).

    refactor.py SET [--checks C01,C02] [--tests]     apply the set in a scratch copy of /repo and run the checks there
    refactor.py --list
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {}

SETS['rk-helpers'] = [
    ('dg1d/rk.py', """    # Initialize storage variables
    K = [np.zeros(solution.u.shape) for _ in range(len(coeffs))]
    us = solution.copy()
    uk = solution.copy()
""", """    uk = solution.copy()
    us = solution.copy()
    nstages = len(coeffs)
    K = [None] * nstages
"""),
    ('dg1d/rk.py', """        for k, (c, alpha) in enumerate(zip(coeffs, alphas)):

            # Get the solution at this sub-time step:
            # u_k = u_0 + \\Delta t \\sum_{k=0}^{n-1} \\beta_{k,j} f(t_j,u_j)
            # t_k = t_0 + \\alpha_k \\Delta t
            uk.copy_data_only(us)
            for j, beta in enumerate(betas[k, :k]):
                uk.smart_axpy(beta, K[j])
            uk.t = solution.t + alpha * dt

            # Limit solution if necessary
            if k > 0:
                limiter.limit(uk)

            # Evaluate and store the solution increment: K_k = \\Delta t  f(t_k,
            # u_k)
            K[k] = dt * dgsolver.residual(uk)

            # Weighted sum of the residuals
            solution.smart_axpy(c, K[k])

        # Update the current time and make sure the boundary elements
        # are correct
        solution.t += dt
        solution.n += 1
        solution.apply_bc()

        # Limit solution if necessary
        limiter.limit(solution)
""", """        for k in range(nstages):
            uk.t = solution.t + dt * alphas[k]
            build_stage(uk, us, betas, K, k)
            if k != 0:
                limiter.limit(uk)
            K[k] = dgsolver.residual(uk) * dt

        # Weighted sum of the residuals
        for k in range(nstages):
            solution.smart_axpy(coeffs[k], K[k])

        finish_step(solution, dt, limiter)
"""),
    ('dg1d/rk.py', """# ========================================================================
def classic_rk(""", """def build_stage(uk, us, betas, K, k):
    uk.copy_data_only(us)
    j = 0
    while j < k:
        uk.smart_axpy(betas[k, j], K[j])
        j += 1


def finish_step(solution, dt, limiter):
    # the time and the step number come last
    solution.apply_bc()
    limiter.limit(solution)
    solution.n = solution.n + 1
    solution.t = solution.t + dt


# ========================================================================
def classic_rk("""),
    ('dg1d/rk.py', """            # Update the solution
            solution.smart_axpy(gamma, du)

        # Update the current time and make sure the boundary elements
        # are correct
        solution.t += dt
        solution.n += 1
        solution.apply_bc()

        # Limit solution if necessary
        limiter.limit(solution)
""", """            # Update the solution
            solution.smart_axpy(gamma, du)

        finish_step(solution, dt, limiter)
"""),
    ('dg1d/rk.py', """    if dt > tf - t and tout >= tf:
        return tf - t, True, True

    # If we reached an output time
    # elif dt > (tout-t) - eps:
    elif dt > tout - t:
        return tout - t, True, False

    else:
        return dt, False, False""", """    output = done = False
    if t + 0 > tout - dt or dt > tout - t:
        output = dt > tout - t
    if dt > tf - t and tout >= tf:
        output, done = True, True
        dt = tf - t
    elif output:
        dt = tout - t
    return dt, output, done"""),
    ('dg1d/rk.py', """    if dt < 1e-14:
        sys.exit(
            "Next time step is too small ({0:e}<1e-14). Exiting at step {1:7d} and time {2:e}.\\n".format(dt, n, t))

    if np.isnan(dt):
        sys.exit(
            "Time step is NaN. Exiting at step {0:7d} and time {1:e}.\\n".format(n, t))
""", """    if dt >= 1e-14:
        return
    if np.isnan(dt):
        what = "NaN"
    else:
        what = "too small"
    sys.exit("Next time step is {0:s} ({1:e}). Exiting at step {2:7d} and time {3:e}.\\n".format(what, dt, n, t))
"""),
    ('dg1d/rk.py', """    return solution.dx * cfl / (v * (2 * solution.basis.p + 1))
    #""", """    factor = 1 + 2 * solution.basis.p
    return cfl * solution.dx / (factor * v)
    #"""),
]

SETS['study'] = [
    ('advection_convergence/run.py', """        # working directory for the data
        workdir = datadir + '/' + str(order) + '/' + str(res)
        print('Creating directory', workdir, 'and go to it')
        os.makedirs(workdir)
        os.chdir(workdir)

        # create the deck
        deckname = deck.write_deck(workdir, defs)

        # run the code
        runcode(deckname, False)

        # Go back to our base directory
        os.chdir(basedir)""", """        # working directory for the data
        workdir = os.path.join(datadir, '%d' % order, '%d' % res)
        print('Creating directory', workdir)
        os.makedirs(workdir)

        # create the deck
        deckname = deck.write_deck(workdir, defs[::-1])

        # run the code
        os.chdir(workdir)
        try:
            runcode(deckname, background=False)
        finally:
            # Go back to our base directory
            os.chdir(basedir)"""),
    ('advection_convergence/run.py', """    proc = sp.Popen(shlex.quote(codedir + 'main.py') + ' -d ' + shlex.quote(deck),
                    shell=True, stdout=log, stderr=sp.PIPE)
    retcode = 0
""", """    proc = sp.Popen([codedir + 'main.py', '-d', deck],
                    stdout=log, stderr=sp.DEVNULL)
    retcode = 0
"""),
    ('advection_convergence/plot.py', """    resolutions = [int(i) for i in resdirs]
    resolutions.sort()
""", """    resolutions = sorted(map(int, resdirs))
"""),
    ('advection_convergence/plot.py', """        # Get the cell-average error
        errors[k] = error_norm(u0e, u0f, 'L2')

        # Get the elapsed time
        timers[k] = get_timer(ppdir + '/logfile')
""", """        # Get the elapsed time and the cell-average error
        timers[k] = float(get_timer(os.path.join(ppdir, 'logfile')))
        errors[k] = error_norm(u0e, u0f)
"""),
    ('advection_convergence/plot.py', """    if etype == 'L2':
        return np.sqrt(sum((0.5 * u0e - 0.5 * u0f)**2) / res)
""", """    if etype == 'L2':
        return 0.5 * np.sqrt(np.mean((u0 - uf)**2))
"""),
    ('advection_convergence/plot.py', """    th = dxs**(2 * order + 1) * errors[0] / dxs[0]**(2 * order + 1)
""", """    th = errors[0] * (dxs / dxs[0])**(2 * order + 1)
"""),
]

SETS['stability'] = [
    ('analysis/rk_stability.py', """    for i in range(num):
        for j in range(num):
            A = I - Z[i, j] * B + Z[i, j] * np.outer(e, coeffs)
            sigma[i, j] = abs(np.linalg.det(A))
""", """    D = np.outer(e, coeffs) - B
    for j in range(num):
        sigma[:, j] = np.abs(np.linalg.det(I[None] + Z[:, j, None, None] * D[None]))
"""),
    ('analysis/rk_stability.py', """    cs1 = plt.contour(ZR, ZI, sigma, [1], colors=cmap[coloridx], linewidths=2)
    cs2 = plt.contour(ZR, -ZI, sigma, [1], colors=cmap[coloridx], linewidths=2)
""", """    cs2 = plt.contour(ZR, -ZI, sigma, levels=[1.0], colors=cmap[coloridx], linewidths=2)
    cs1 = plt.contour(ZR, ZI, sigma, levels=[1.0], colors=cmap[coloridx], linewidths=2)
"""),
    ('analysis/aux_functions.py', """    reshaped = roots.reshape((roots.size,), order='F')

    # Separate the real and imaginary parts
    x, y = np.real(reshaped), np.imag(reshaped)

    # Get the angle wrt the mean of the cloud of points
    x0, y0 = x.mean(), y.mean()
    angle = np.arctan2(y - y0, x - x0)
""", """    reshaped = roots.ravel()

    # Get the angle wrt the mean of the cloud of points
    x, y = reshaped.real, reshaped.imag
    angle = np.angle(reshaped - np.mean(reshaped))
"""),
    ('analysis/aux_functions.py', """        if i == j:
            return 1
        else:
            return 0
""", """        return int(i == j)
"""),
    ('analysis/dg_stability.py', """    F = np.zeros((p + 1, p + 1))
    for i in range(0, p + 1):
        dli = L.basis(i).deriv()
        for j in range(0, p + 1):
            lj = L.basis(j)
            F[i, j] = basis.integrate_legendre_product(dli, lj)

    return F
""", """    # the derivative of a Legendre polynomial holds the lower ones of the other parity, twice each
    F = np.zeros((p + 1, p + 1))
    for i in range(1, p + 1):
        F[i, i - 1::-2] = 2.0

    return F
"""),
    ('analysis/dg_stability.py', """        FK = Minv.dot(-(g1 - g0) + F)
""", """        FK = Minv.dot(F + g0 - g1)
"""),
]

SETS['rk-lists'] = [
    ('dg1d/rk.py', """    if deck.rk == 'low_storage_rk4':
        low_storage_rk4(solution, deck, dgsolver, limiter)

    else:
        if deck.rk == 'rk3':
            coeffs, alphas, betas = rkc.get_rk3_coefficients()

        elif deck.rk == 'rk4':
            coeffs, alphas, betas = rkc.get_rk4_coefficients()

        elif deck.rk == 'rk5':""", """    known = {'rk3': rkc.get_rk3_coefficients, 'rk4': rkc.get_rk4_coefficients}
    if deck.rk == 'low_storage_rk4':
        low_storage_rk4(solution, deck, dgsolver, limiter)

    else:
        if deck.rk in known:
            coeffs, alphas, betas = known[deck.rk]()

        elif deck.rk == 'rk5':"""),
    ('dg1d/rk.py', """    K = [np.zeros(solution.u.shape) for _ in range(len(coeffs))]
    us = solution.copy()
    uk = solution.copy()

    # Output time array (ignore the start time)
    nout = 0
    tout_array = iter(np.linspace(solution.t, deck.finaltime, deck.nout)[1:])

    # Flags
    done = False

    # Write the initial condition to file
    solution.printer(0, 0.0)
    nout += 1
    tout = next(tout_array)
""", """    K = [np.zeros(solution.u.shape) for _ in range(len(coeffs))]
    us = solution.copy()
    uk = solution.copy()
    times = np.linspace(solution.t, deck.finaltime, deck.nout)
    nout = 1
    done = False
    solution.printer(0, 0.0)
    tout = times[nout]
"""),
    ('dg1d/rk.py', """            # Weighted sum of the residuals
            solution.smart_axpy(c, K[k])

        # Update the current time and make sure the boundary elements
        # are correct
        solution.t += dt
        solution.n += 1
        solution.apply_bc()

        # Limit solution if necessary
        limiter.limit(solution)

        # Output the solution if necessary
        if output:
            solution.printer(nout, dt)
            if not done:
                nout += 1
                tout = next(tout_array)
""", """        # Weighted sum of the residuals
        new = us.u
        for c, inc in zip(coeffs, K):
            if abs(c) > 1e-15:
                new = new + c * inc
        solution.u = new
        solution.apply_bc()
        solution.n += 1
        solution.t += dt
        limiter.limit(solution)

        if not output:
            continue
        solution.printer(nout, dt)
        nout += 1
        if not done:
            tout = times[nout]
"""),
]

SETS['physics'] = [
    ('dg1d/euler_physics.py', """def max_wave_speed(u):
    \"\"\"Returns the maximum wave speed for the Euler system\"\"\"

    # Primitive variables
    rho = u[0, 0::3]
    v = u[0, 1::3] / rho
    E = u[0, 2::3]
    p = (constants.gamma - 1) * (E - 0.5 * rho * v * v)

    # Get the wave speed
    wave_speed = np.fabs(v) + np.sqrt(constants.gamma * p / rho)

    return np.max(wave_speed)
""", """def primitive(q):
    \"\"\"density, velocity, energy, pressure, sound speed and enthalpy of interleaved states\"\"\"
    r, m, E = q.reshape(-1, 3).T
    v = m / r
    p = (E - 0.5 * m * v) * (constants.gamma - 1)
    return r, v, E, p, np.sqrt(p * constants.gamma / r), (E + p) / r


def max_wave_speed(u):
    \"\"\"Returns the maximum wave speed for the Euler system\"\"\"
    _, v, _, _, a, _ = primitive(u[0])
    return (abs(v) + a).max()
"""),
    ('dg1d/euler_physics.py', """    # Initialize
    F = np.zeros(ul.shape)

    # Primitive variables and sound speeds
    rhoL = ul[0::3]
    vL = ul[1::3] / rhoL
    EL = ul[2::3]
    pL = (constants.gamma - 1) * (EL - 0.5 * rhoL * vL * vL)
    aL = np.sqrt(constants.gamma * pL / rhoL)
    HL = (EL + pL) / rhoL

    rhoR = ur[0::3]
    vR = ur[1::3] / rhoR
    ER = ur[2::3]
    pR = (constants.gamma - 1) * (ER - 0.5 * rhoR * vR * vR)
    aR = np.sqrt(constants.gamma * pR / rhoR)
    HR = (ER + pR) / rhoR

    # Compute Roe averages
    RT = np.sqrt(rhoR / rhoL)
    rho = RT * rhoL
    v = (vL + RT * vR) / (1 + RT)
    H = (HL + RT * HR) / (1 + RT)
    a = np.sqrt((constants.gamma - 1) * (H - 0.5 * v * v))
    dp = pR - pL

    # Absolute value of Roe eigenvalues
    ws0 = np.fabs(v - a)
    ws1 = np.fabs(v)
    ws2 = np.fabs(v + a)

    # Entropy fix
    Da = np.maximum(0, 4 * ((vR - aR) - (vL - aL)))
    idx = ws0 < 0.5 * Da
    ws0[idx] = ws0[idx] * ws0[idx] / Da[idx] + 0.25 * Da[idx]
    Da = np.maximum(0, 4 * ((vR + aR) - (vL + aL)))
    idx = ws2 < 0.5 * Da
    ws2[idx] = ws2[idx] * ws2[idx] / Da[idx] + 0.25 * Da[idx]
""", """    F = np.empty_like(ul)
    rhoL, vL, EL, pL, aL, HL = primitive(ul)
    rhoR, vR, ER, pR, aR, HR = primitive(ur)

    # Compute Roe averages
    wL = np.sqrt(rhoL)
    wR = np.sqrt(rhoR)
    rho = wL * wR
    v = (wL * vL + wR * vR) / (wL + wR)
    H = (wL * HL + wR * HR) / (wL + wR)
    a = np.sqrt((constants.gamma - 1) * (H - 0.5 * v * v))
    dp = pR - pL

    def fixed(w, Da):
        out = []
        for x, d in zip(w, Da):
            d = max(0, d)
            out.append(x * x / d + d / 4 if 2 * x < d else x)
        return np.array(out)

    # Absolute value of Roe eigenvalues
    ws1 = abs(v)
    ws2 = fixed(abs(v + a), 4 * (vR + aR - vL - aL))
    ws0 = fixed(abs(v - a), 4 * (vR - aR - vL + aL))
"""),
    ('dg1d/euler_physics.py', """    # Initialize
    F = np.zeros(ug.shape)

    # Primitive variables
    rho = ug[:, 0::3]
    v = ug[:, 1::3] / rho
    E = ug[:, 2::3]
    p = (constants.gamma - 1) * (E - 0.5 * rho * v * v)

    # Flux in x-direction
    F[:, 0::3] = ug[:, 1::3]
    F[:, 1::3] = rho * v * v + p
    F[:, 2::3] = (E + p) * v

    return F
""", """    F = np.zeros(ug.shape)
    for row in range(ug.shape[0]):
        rho, v, E, p, _, _ = primitive(ug[row])
        F[row] = np.column_stack((rho * v, rho * v * v + p, v * (E + p))).ravel()
    return F
"""),
    ('dg1d/euler_physics.py', """    # Discontinuity sensor
    xsi = np.fabs(dV2) / (rhoL + rhoR)
    XSI = 2 * xsi / ((1 + xsi) * (1 + xsi))
    idx = np.array(np.where(XSI > thresholds[0]))
    sensors[idx] = 1
    sensors[idx + 1] = 1

    # Shock sensor
    phi = np.fabs(dp) / (pL + pR)
    PHI = 2 * phi / ((1 + phi) * (1 + phi))
    idx = np.array(np.where((PHI > thresholds[1]) & (
        vL - aL > v - a) & (v - a > vR - aR)))
    sensors[idx] = 2
    sensors[idx + 1] = 2""", """    def measure(f):
        return 2 * f / (1 + f)**2

    shock = measure(np.fabs(dp) / (pL + pR)) > thresholds[1]
    shock &= vL - aL > v - a
    shock &= v - a > vR - aR
    contact = measure(np.fabs(dV2) / (rhoL + rhoR)) > thresholds[0]
    for flag, where in ((1, contact), (2, shock)):
        for i in range(len(where)):
            if where[i]:
                sensors[i:i + 2] = flag"""),
    ('dg1d/euler_physics.py', """    # Find the maximum eigenvalue for each interface
    maxvap = np.maximum(np.fabs(vL) + aL, np.fabs(vR) + aR)

    # first: fx = rho*u
    F[0::3] = 0.5 * (rhoL * vL + rhoR * vR - maxvap * (rhoR - rhoL))

    # second: fx = rho*u*u+p
    F[1::3] = 0.5 * (rhoL * vL * vL + pL + rhoR * vR * vR +
                     pR - maxvap * (rhoR * vR - rhoL * vL))

    # third: fx = (E+p)*u
    F[2::3] = 0.5 * ((EL + pL) * vL + (ER + pR) * vR - maxvap * (ER - EL))

    return F
""", """    speed = np.repeat(np.max([np.fabs(vL) + aL, np.fabs(vR) + aR], axis=0), 3)
    FL = np.c_[rhoL * vL, rhoL * vL * vL + pL, (EL + pL) * vL].flatten()
    FR = np.c_[rhoR * vR, rhoR * vR * vR + pR, (ER + pR) * vR].flatten()
    return 0.5 * (FL + FR) - 0.5 * speed * (ur - ul)
"""),
    ('dg1d/advection_physics.py', "    return ul\n", "    return 1.0 * ul\n"),
    ('dg1d/advection_physics.py', """    # Calculate the sensor
    phi = np.fabs(ur - ul)
    PHI = 2 * phi / ((1 + phi) * (1 + phi))

    # Find where the sensor exceeds the threshold value
    idx = np.array(np.where(PHI > thresholds[0]))
    sensors[idx] = 1
    sensors[idx + 1] = 1""", """    phi = abs(ul - ur)
    flagged = 2 * phi / (1 + phi)**2 > thresholds[0]
    sensors[:-1][flagged] = 1
    sensors[1:][flagged] = 1"""),
]

SETS['limiter'] = [
    ('dg1d/limiting.py', """        # loop over all the interior elements
        self.ulim = np.copy(solution.u)
        for e in range(1, solution.N_E + 1):

            if solution.sensors.sensors[e] != 0:

                # loop over the fields and call HR
                for f in range(0, solution.N_F):
                    self.ulim[:, e * solution.N_F + f] = self.hr(solution.u[:, e * solution.N_F + f],
                                                                 solution.u[
                                                                     :, (e - 1) * solution.N_F + f],
                                                                 solution.u[:, (e + 1) * solution.N_F + f])

        solution.u = np.copy(self.ulim)
        solution.apply_bc()
""", """        old = solution.u
        new = np.copy(old)
        nf = solution.N_F
        flagged = [e for e in range(solution.N_E, 0, -1) if solution.sensors.sensors[e]]
        for f in reversed(range(nf)):
            for e in flagged:
                i = e * nf + f
                new[:, i] = self.hr(old[:, i], old[:, i - nf], old[:, i + nf])
        self.ulim = new
        solution.u = new.copy()
        solution.apply_bc()
"""),
    ('dg1d/limiting.py', """            # Initialize
            avgdUL = 0
            avgdUC = 0
            avgdUR = 0
            avgRL = 0
            avgRC = 0
            avgRR = 0

            # Calculate the derivative average in the cells: left,
            # center, right. Calculate the remainder polynomial in our
            # cells and its two neighbors
            for n in range(m - 1, N + 1):
                integral = self.integral_monomial_derivative[m - 1, n]
                avgdUL += al[n] * integral
                avgdUC += ac[n] * integral
                avgdUR += ar[n] * integral
                if(n >= m + 1):
                    avgRL += alim[n] \\
                        * self.integral_monomial_derivative_bounds_31[m - 1, n]
                    avgRC += alim[n] * integral
                    avgRR += alim[n] \\
                        * self.integral_monomial_derivative_bounds_13[m - 1, n]
""", """            low = slice(m - 1, N + 1)
            high = slice(m + 1, N + 1)
            whole = self.integral_monomial_derivative[m - 1]
            avgdUL, avgdUC, avgdUR = [np.dot(q[low], whole[low]) for q in (al, ac, ar)]
            avgRL = np.dot(alim[high], self.integral_monomial_derivative_bounds_31[m - 1, high])
            avgRC = np.dot(alim[high], whole[high])
            avgRR = np.dot(alim[high], self.integral_monomial_derivative_bounds_13[m - 1, high])
"""),
    ('dg1d/limiting.py', "    return sorted([a, b, 0])[1]", "    if a * b <= 0:\n        return 0\n    return min(a, b) if a > 0 else max(a, b)"),
    ('dg1d/limiting.py', """        # Decide where to do limiting
        solution.sensors.sensing(solution)
""", """        # Decide where to do limiting
        sensors = solution.sensors
        sensors.sensing(solution)
        if not np.any(sensors.sensors[1:-1]):
            return
"""),
    ('dg1d/sensor.py', "        self.sensors.fill(0)\n", "        self.sensors = np.zeros_like(self.sensors)\n"),
    ('dg1d/limiting.py', """    def hr(self, uc, ul, ur):
        \"\"\"Limit a cell solution with hierarchical reconstruction\"\"\"

        # Legendre -> monomial transform
        uc = self.legendre_to_monomial(uc)
        ul = self.legendre_to_monomial(ul)
        ur = self.legendre_to_monomial(ur)

        # Limit a monomial solution
        uc_lim = self.limit_monomial(uc, ul, ur)

        # monomial -> Legendre transform
        uc_lim = self.monomial_to_legendre(uc_lim)

        return uc_lim
""", """    def hr(self, uc, ul, ur):
        \"\"\"Limit a cell solution with hierarchical reconstruction\"\"\"
        mono = [self.legendre_to_monomial(q) for q in (uc, ul, ur)]
        return self.monomial_to_legendre(self.limit_monomial(*mono))
"""),
]

SETS['solution'] = [
    ('dg1d/solution.py', """        # On the left side of the domain
        if self.bc_l == 'periodic':
            self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
        elif self.bc_l == 'zerograd':
            self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
        else:
            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))

        # On the right side of the domain
        if self.bc_r == 'periodic':
            self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
        elif self.bc_r == 'zerograd':
            self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
        else:
            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
""", """        nf = self.N_F
        first = slice(nf, 2 * nf)
        last = slice(self.u.shape[1] - 2 * nf, self.u.shape[1] - nf)
        for kind, ghost, near, far in ((self.bc_r, slice(self.u.shape[1] - nf, None), last, first),
                                       (self.bc_l, slice(0, nf), first, last)):
            source = {'periodic': far, 'zerograd': near}.get(kind)
            if source is None:
                print("{0:s} is an invalid boundary condition. Exiting.".format(kind))
                continue
            self.u[:, ghost] = self.u[:, source]
"""),
    ('dg1d/solution.py', """        return copy.deepcopy(self)
""", """        other = copy.deepcopy(self)
        return other
"""),
    ('dg1d/solution.py', """        if np.fabs(a) > 1e-15:
            self.u += a * x
""", """        if -1e-15 <= a <= 1e-15:
            return
        self.u = self.u + x * a
"""),
    ('dg1d/solution.py', """            # Concatenate element centroids with the solution (ignore ghost
            # cells)
            start = self.N_F + field
            end = -2 * self.N_F + 1 + field
            step = self.N_F
            xc_u = np.c_[self.xc, self.u[:, start:end:step].transpose()]
""", """            inner = self.u[:, self.N_F:-self.N_F].reshape(self.basis.N_s, -1, self.N_F)
            xc_u = np.hstack((np.reshape(self.xc, (-1, 1)), inner[:, :, field].T))
"""),
    ('dg1d/solution.py', "        return np.dot(self.basis.phi, self.u)\n", "        return np.einsum('ij,jk->ik', self.basis.phi, self.u)\n"),
    ('dg1d/solution.py', "        return np.dot(self.basis.psi, self.u)\n", "        left = (self.u[0::2].sum(0) - self.u[1::2].sum(0))\n        return np.array([left, self.u.sum(0)])\n"),
    ('dg1d/dg.py', """        # Collocate the solution to the Gaussian nodes
        self.ug = solution.collocate()

        # Evaluate the solution at the cell face
        self.uf = solution.evaluate_faces()

        # Evaluate the interior fluxes
        self.F = solution.interior_flux(self.ug)

        # Integrate the interior fluxes
        self.integrate_interior_flux(solution.basis.dphi_w)

        # Evaluate the edge fluxes
        self.q = solution.riemann(self.uf[1, :-solution.N_F],  # left
                                  self.uf[0, solution.N_F:])  # right
""", """        self.uf = solution.evaluate_faces()
        nf = solution.N_F
        left, right = self.uf[1, :-nf], self.uf[0, nf:]
        self.q = solution.riemann(left, right)
        self.ug = solution.collocate()
        self.F = solution.interior_flux(self.ug)
        self.integrate_interior_flux(solution.basis.dphi_w)
"""),
    ('dg1d/dg.py', """        self.Q[::2, ] = self.q[N_F:] - self.q[:-N_F]
        self.Q[1::2, ] = self.q[:-N_F] + self.q[N_F:]

        # Only add to the inside of the flux matrices (ignore the ghost
        # fluxes)
        self.F[:, N_F:-N_F] -= self.Q
""", """        out, into = self.q[N_F:], self.q[:-N_F]
        sign = -1
        for m in range(self.F.shape[0]):
            self.F[m, N_F:-N_F] -= out + sign * into
            sign = -sign
"""),
    ('dg1d/dg.py', "        self.F = np.einsum('ij,i->ij', self.F, minv)", "        self.F = np.reshape(minv, (-1, 1)) * self.F"),
    ('dg1d/enhance.py', """        # Faces at j-1/2
        self.uf_tmp[0, N_F:] = np.dot(
            self.betaL, u[:, :-N_F]) + np.dot(self.betaR, u[:, N_F:])

        # Faces at j+1/2
        self.uf_tmp[
            1, :-N_F] = np.dot(self.alphaL, u[:, :-N_F]) + np.dot(self.alphaR, u[:, N_F:])

        return self.uf_tmp
""", """        faces = np.zeros((2, u.shape[1]))
        l, r = u[:, :-N_F], u[:, N_F:]
        faces[1, :-N_F] = self.alphaL.dot(l) + self.alphaR.dot(r)
        faces[0, N_F:] = self.betaL.dot(l) + self.betaR.dot(r)
        return faces
"""),
    ('dg1d/enhance.py', """        self.modes = [int(i) for i in method[1:]]
        # sort modes (makes the indexing cleaner in later functions)
        self.modes.sort()
""", """        self.modes = sorted(map(int, method[1:]))
"""),
    ('dg1d/basis.py', """        psi = np.ones((2, self.N_s))
        psi[0, 1::2] = -1
        return psi
""", """        return np.array([[(-1.)**n for n in range(self.N_s)], [1.] * self.N_s])
"""),
    ('dg1d/basis.py', """        coef = leg.legfit(self.x, fgauss, self.p)

        return coef
""", """        return np.array([np.sum(self.w * fgauss * self.phi[:, n]) / self.m[n] for n in range(self.N_s)])
"""),
    ('dg1d/basis.py', """    return imul(1) - imul(-1)
""", """    a, b = imul(np.array([-1., 1.]))
    return b - a
"""),
    ('dg1d/helpers.py', """    if not os.path.isdir(directory):
        os.makedirs(directory, exist_ok=True)""", """    try:
        os.makedirs(directory)
    except FileExistsError:
        if not os.path.isdir(directory):
            raise"""),
    ('dg1d/deck.py', """        for line in f:
                if "#PDE system" in line:
                    self.system = next(f).rstrip()
                elif "#RK scheme" in line:
                    self.rk = next(f).rstrip()
                elif "#riemann solver" in line:
                    self.riemann = next(f).rstrip()
                elif "#initial condition" in line:
                    self.ic = next(f).rstrip()
""".replace("        for line", "            for line", 1), """            texts = {"#PDE system": "system", "#RK scheme": "rk", "#riemann solver": "riemann", "#initial condition": "ic"}
            for line in f:
                found = [name for head, name in texts.items() if head in line]
                if found:
                    setattr(self, found[0], next(f).rstrip())
"""),
]

SETS['makedir-pathlib'] = [
    ('dg1d/helpers.py', "import os\n", "import pathlib\n"),
    ('dg1d/helpers.py', """    if not os.path.isdir(directory):
        os.makedirs(directory, exist_ok=True)""", """    pathlib.Path(directory).mkdir(parents=True, exist_ok=True)"""),
]

# what reordered arithmetic does: relative changes of one or two units in the last place, everywhere (a function of the value)
SETS['rounding'] = [
    ('dg1d/constants.py', None, """
import numpy as _np


def jitter(x):
    x = _np.array(x, float)
    b = x.reshape(-1).view(_np.uint64).reshape(x.shape)
    k = ((b * _np.uint64(0x9E3779B97F4A7C15)) >> _np.uint64(33)) % _np.uint64(3)
    return x * (1 + 2.3e-16 * (k.astype(float) - 1))
"""),
    ('dg1d/dg.py', "        self.ug = solution.collocate()", "        import dg1d.constants as cc\n        self.ug = cc.jitter(solution.collocate())"),
    ('dg1d/dg.py', "        self.uf = solution.evaluate_faces()", "        self.uf = cc.jitter(solution.evaluate_faces())"),
    ('dg1d/dg.py', "        # Add the interior and edge fluxes\n", "        self.F, self.q = cc.jitter(self.F), cc.jitter(self.q)\n        # Add the interior and edge fluxes\n"),
    ('dg1d/dg.py', "        return self.F\n", "        self.F = cc.jitter(self.F)\n        return self.F\n"),
    ('dg1d/solution.py', "        return self.keywords['max_wave_speed'](self.u)", "        return constants.jitter(self.keywords['max_wave_speed'](self.u))[()]"),
    ('dg1d/solution.py', "        return self.keywords['riemann'](ul, ur)", "        return constants.jitter(self.keywords['riemann'](ul, ur))"),
    ('dg1d/limiting.py', "        uc = self.legendre_to_monomial(uc)\n", "        import dg1d.constants as cc\n        uc = cc.jitter(self.legendre_to_monomial(uc))\n"),
    ('dg1d/limiting.py', "        return uc_lim\n", "        return cc.jitter(uc_lim)\n"),
]


SETS['structure'] = [
    ('dg1d/dg.py', """        # Initialize variables
        self.ug = np.zeros((solution.u.shape))
        self.uf = np.zeros((2, solution.u.shape[1]))
        self.q = np.zeros((solution.N_E + 1) * solution.N_F)
        self.F = np.zeros(solution.u.shape)
        self.Q = np.zeros((self.F.shape[0], solution.N_E * solution.N_F))
""", """        self.nf = solution.N_F
        self.signs = np.array([(-1)**m for m in range(solution.u.shape[0])])[:, None]
"""),
    ('dg1d/dg.py', """        # Collocate the solution to the Gaussian nodes
        self.ug = solution.collocate()

        # Evaluate the solution at the cell face
        self.uf = solution.evaluate_faces()

        # Evaluate the interior fluxes
        self.F = solution.interior_flux(self.ug)

        # Integrate the interior fluxes
        self.integrate_interior_flux(solution.basis.dphi_w)

        # Evaluate the edge fluxes
        self.q = solution.riemann(self.uf[1, :-solution.N_F],  # left
                                  self.uf[0, solution.N_F:])  # right

        # Add the interior and edge fluxes
        self.add_interior_face_fluxes(solution.N_F)

        # Multiply by the inverse mass matrix
        self.inverse_mass_matrix_multiply(solution.scaled_minv)

        return self.F
""", """        nf = solution.N_F
        faces = solution.evaluate_faces()
        q = solution.riemann(faces[1, :-nf], faces[0, nf:])
        total = solution.basis.dphi_w.dot(solution.interior_flux(solution.collocate()))
        signs = np.array([(-1)**m for m in range(total.shape[0])])[:, None]
        total[:, nf:-nf] = total[:, nf:-nf] - (q[None, nf:] - signs * q[None, :-nf])
        return total * solution.scaled_minv[:, None]
"""),
    ('dg1d/deck.py', """            for line in f:
                if "#PDE system" in line:
                    self.system = next(f).rstrip()
                elif "#RK scheme" in line:
                    self.rk = next(f).rstrip()
                elif "#riemann solver" in line:
                    self.riemann = next(f).rstrip()
                elif "#initial condition" in line:
                    self.ic = next(f).rstrip()
                elif "#number of outputs" in line:
                    self.nout = int(next(f))
                elif "#final time" in line:
                    self.finaltime = float(next(f))
                elif "#Courant-Friedrichs-Lewy condition" in line:
                    self.cfl = float(next(f))
                elif "#order" in line:
                    self.order = int(next(f))
                elif "#limiting" in line:
                    self.limiting = next(f).rstrip()
                elif "#enhancement" in line:
                    self.enhance = next(f).rstrip()
                elif "#sensor thresholds" in line:
                    line = next(f).rstrip()
                    self.sensor_thresholds = [float(i) for i in line.split()]
""", """            table = [("#PDE system", 'system', str.rstrip),
                     ("#RK scheme", 'rk', str.rstrip),
                     ("#riemann solver", 'riemann', str.rstrip),
                     ("#initial condition", 'ic', str.rstrip),
                     ("#number of outputs", 'nout', int),
                     ("#final time", 'finaltime', float),
                     ("#Courant-Friedrichs-Lewy condition", 'cfl', float),
                     ("#order", 'order', int),
                     ("#limiting", 'limiting', str.rstrip),
                     ("#enhancement", 'enhance', str.rstrip),
                     ("#sensor thresholds", 'sensor_thresholds',
                      lambda v: [float(i) for i in v.split()])]
            for line in f:
                for key, name, convert in table:
                    if key in line:
                        setattr(self, name, convert(next(f)))
                        break
"""),
    ('dg1d/main.py', """if __name__ == '__main__':

    # ========================================================================
    # Parse arguments
    parser =""", """def run():
    parser ="""),
    ('dg1d/main.py', """    deck = deck.Deck()
    deck.parser(args.deck)
""", """    inp = deck.Deck()
    inp.parser(args.deck)
"""),
    ('dg1d/main.py', """solution.Solution(deck.ic, deck.system, deck.order,
                            deck.riemann, deck.enhance, deck.sensor_thresholds)""", """solution.Solution(inp.ic, inp.system, inp.order,
                            inp.riemann, inp.enhance, inp.sensor_thresholds)"""),
    ('dg1d/main.py', "limiting.Limiter(deck.limiting, sol)", "limiting.Limiter(inp.limiting, sol)"),
    ('dg1d/main.py', "rk.integrate(sol, deck, dgsolver, limiter)", "rk.integrate(sol, inp, dgsolver, limiter)"),
    ('dg1d/main.py', None, """

if __name__ == '__main__':
    run()
"""),
    ('dg1d/sensor.py', """        # Ensure that the sensors are clean
        self.sensors.fill(0)
""", """        # A clean set of sensors
        self.sensors = np.zeros_like(self.sensors)
"""),
    ('dg1d/solution.py', """            xc_u = np.c_[self.xc, self.u[:, start:end:step].transpose()]

            # Save the data to a file
            np.savetxt(fname, xc_u, fmt='%.18e', delimiter=',', header=hline)
""", """            with open(fname, 'w') as out:
                for l in hline.split('\\n'):
                    out.write('# ' + l + '\\n')
                rows = zip(self.xc, self.u[:, start:end:step].T)
                for x, modes in rows:
                    out.write(','.join('%.18e' % v for v in [x] + list(modes)) + '\\n')
"""),
    ('dg1d/rk.py', """    if dt < 1e-14:
        sys.exit(
            "Next time step is too small ({0:e}<1e-14). Exiting at step {1:7d} and time {2:e}.\\n".format(dt, n, t))

    if np.isnan(dt):
        sys.exit(
            "Time step is NaN. Exiting at step {0:7d} and time {1:e}.\\n".format(n, t))
""", """    where = " Exiting at step {0:7d} and time {1:e}.\\n".format(n, t)
    message = None
    if dt < 1e-14:
        message = "Next time step is too small ({0:e}<1e-14).".format(dt)
    elif dt != dt:
        message = "Time step is NaN."
    if message:
        raise SystemExit(message + where)
"""),
    ('dg1d/enhance.py', """    for i in range(solution_order + 1):
        if i not in modes:
            betaL = np.insert(betaL, i, 0)
            alphaR = np.insert(alphaR, i, 0)

    return alphaL, alphaR, betaL, betaR
""", """    full = np.zeros((2, solution_order + 1))
    full[0, modes], full[1, modes] = betaL, alphaR

    return alphaL, full[1], full[0], betaR
"""),
]

SETS['plots'] = [
    ('dg1d/plot.py', """        rho = ug[:, 0::solution.N_F]
        u = ug[:, 1::solution.N_F] / rho
        p = (gamma - 1) * (ug[:, 2::solution.N_F] - 0.5 * rho * u * u)
        ug[:, 1::solution.N_F] = u
        ug[:, 2::solution.N_F] = p

        rho = uf[:, 0::solution.N_F]
        u = uf[:, 1::solution.N_F] / rho
        p = (gamma - 1) * (uf[:, 2::solution.N_F] - 0.5 * rho * u * u)
        uf[:, 1::solution.N_F] = u
        uf[:, 2::solution.N_F] = p
""", """        for v in (ug, uf):
            v[:, 1::3] /= v[:, 0::3]
            v[:, 2::3] = (gamma - 1) * (v[:, 2::3] - 0.5 * v[:, 0::3] * v[:, 1::3]**2)
"""),
    ('dg1d/plot.py', """            plt.plot(xg, ug[:, e * solution.N_F + field], 'o',
                     mfc=cmap[e % len(cmap)], mec=cmap[e % len(cmap)])

            # Plot the solution at the cell edges (squares)
            plt.plot([a, b], uf[:, e * solution.N_F + field],
                     's', mfc=cmap[e % len(cmap)], mec='black')
""", """            color = cmap[e % len(cmap)]
            plt.gca().plot([a, b], uf[:, e * solution.N_F + field], 's', mfc=color, mec='black')
            plt.gca().plot(xg, ug[:, e * solution.N_F + field], marker='o', linestyle='None', mfc=color, mec=color)
"""),
]


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def main():
    args = sys.argv[1:]
    if args[:1] == ['--list']:
        print(' '.join(SETS))
        return
    checks = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/checks') if re.match(r'c\d\d\.py', f))
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    tests = '--tests' in args
    names = [a for a in args if a != '--tests'] or list(SETS)
    for name in names:
        d = tempfile.mkdtemp(prefix='refactor-', dir='/tmp')
        try:
            repo = d + '/repo'
            sh(['cp', '-a', '/repo', repo])
            for f, old, new in [e for part in name.split('+') for e in SETS[part]]:
                t = open(repo + '/' + f).read()
                if old is None:
                    open(repo + '/' + f, 'w').write(t + new)
                    continue
                if t.count(old) < 1:
                    raise SystemExit('%s: no match of %r in %s' % (name, old, f))
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            if tests:
                s = open('/opt/vp/test.sh').read().replace('/repo', repo)
                open(d + '/test.sh', 'w').write(s)
                r = sh(['bash', d + '/test.sh', d + '/out.json'])
                base = json.load(open('/opt/vp/BASELINE.json'))
                want = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests') or list(base)
                res = json.load(open(d + '/out.json'))
                bad = [t for t in want if t not in set(res.get('passed', []))]
                print(name, 'tests', 'ok' if not bad else bad[:5], flush=True)
            for c in checks:
                r = sh(['/opt/venv/bin/python', '-W', 'ignore', VERIF + '/run.py', c], env={'DG1D_REPO': repo, 'DG1D_MC_OUT': d + '/ev'})
                if r.returncode:
                    print(name, c, 'exit', r.returncode, '\n'.join(r.stdout.splitlines()[-12:])[:3000], flush=True)
            print(name, 'done', flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
