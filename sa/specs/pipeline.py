"""Reference order of a step (docs: geometry and velocities of the state at the start of the step, coefficients,
recurrences, end coefficients, balance, then states).  Never executed; read by the analysis."""
import copy
import numpy as np


class SpecStep(SpecSL):

    def save_state(self):
        self.states['t'] = copy.copy(self.t)
        self.states['H_j'] = np.copy(self.H_j)
        self.states['h_Ik'] = np.copy(self._h_Ik)
        self.states['Q_ik'] = np.copy(self._Q_ik)
        self.states['Q_uk'] = np.copy(self._Q_uk)
        self.states['Q_dk'] = np.copy(self._Q_dk)
        self.states['x_Ik'] = np.copy(self._x_Ik)
        if self.n_o:
            self.states['Q_o'] = np.copy(self._Qo)
        if self.n_w:
            self.states['Q_w'] = np.copy(self._Qw)
        if self.n_p:
            self.states['Q_p'] = np.copy(self._Qp)
        self.states['A_ik'] = np.copy(self._A_ik)
        self.states['A_uk'] = np.copy(self._A_uk)
        self.states['A_dk'] = np.copy(self._A_dk)
        self.states['A_sj'] = np.copy(self._A_sj)
        self.states['V_j'] = np.copy(self._V_sj)

    def load_state(self, states={}, exclude_states=set(), compute_hydraulic_geometries=True):
        if not states:
            states = self.states
        for key, value in states.items():
            if key not in exclude_states:
                held = {'h_Ik': '_h_Ik', 'Q_ik': '_Q_ik', 'Q_uk': '_Q_uk', 'Q_dk': '_Q_dk', 'x_Ik': '_x_Ik', 'Q_o': '_Qo', 'Q_w': '_Qw', 'Q_p': '_Qp',
                        'A_ik': '_A_ik', 'A_uk': '_A_uk', 'A_dk': '_A_dk', 'A_sj': '_A_sj', 'V_j': '_V_sj'}
                setattr(self, held.get(key, key), copy.copy(value))
        if compute_hydraulic_geometries:
            self.link_hydraulic_geometry()
            self.upstream_hydraulic_geometry()
            self.downstream_hydraulic_geometry()
            self.compute_storage_areas()
            self.node_velocities()

    def _setup_step(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None,
                    first_time=False, implicit=True, banded=False, first_iter=True):
        if first_iter:
            self.save_state()
        if dt is None:
            dt = self._dt
        self._Q_in = Q_in
        self._Q_0Ik = Q_0Ik
        # the state at the start of the step
        self.link_hydraulic_geometry()
        self.upstream_hydraulic_geometry()
        self.downstream_hydraulic_geometry()
        self.compute_storage_areas()
        self.compute_storage_volumes()
        self.node_velocities()
        if self.orifices is not None:
            self.orifice_hydraulic_geometry(u=u_o)
        if self.inertial_damping:
            self.compute_flow_regime()
        # coefficients
        self.link_coeffs(_dt=dt, first_iter=first_iter)
        self.node_coeffs(_Q_0Ik=Q_0Ik, _dt=dt, first_iter=first_iter)
        self.forward_recurrence()
        self.backward_recurrence()
        self.superlink_upstream_head_coefficients(_dt=dt)
        self.superlink_downstream_head_coefficients(_dt=dt)
        self.superlink_flow_coefficients()
        if self.orifices is not None:
            self.orifice_flow_coefficients(u=u_o)
        if self.weirs is not None:
            self.weir_flow_coefficients(u=u_w)
        if self.pumps is not None:
            self.pump_flow_coefficients(u=u_p)
        # balance of the superjunctions
        self.sparse_matrix_equations(H_bc=H_bc, _Q_0j=Q_in, first_time=first_time, _dt=dt, implicit=implicit)

    def _solve_step(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None,
                    first_time=False, implicit=True, banded=False, first_iter=True):
        if dt is None:
            dt = self._dt
        if banded:
            self.solve_banded_matrix(implicit=implicit)
        else:
            self.solve_sparse_matrix(implicit=implicit)
        self.solve_superlink_flows()
        if self.orifices is not None:
            self.solve_orifice_flows(dt=dt, u=u_o)
        if self.weirs is not None:
            self.solve_weir_flows(u=u_w)
        if self.pumps is not None:
            self.solve_pump_flows(u=u_p)
        self.solve_superlink_depths()
        if self._exit_hydraulics:
            self.exit_conditions()
            self.solve_critical_depth()
            self.solve_exit_hydraulics()
        if self._method == 'b':
            self.solve_internals_backwards()
        elif self._method == 'f':
            self.solve_internals_forwards()
        elif self._method == 'nnls':
            self.solve_internals_nnls()
        elif self._method == 'lsq':
            self.solve_internals_lsq()
        self.iter_count += 1
        self.t += dt

    def step(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None,
             first_time=False, implicit=True, banded=None, first_iter=True, num_iter=1, head_tol=0.0015):
        if banded is None:
            banded = self.banded
        if dt is None:
            dt = self._dt
        self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                         first_time=first_time, implicit=implicit, banded=banded, first_iter=first_iter)
        self._solve_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                         first_time=first_time, implicit=implicit, banded=banded, first_iter=first_iter)
        for _ in range(num_iter - 1):
            # a further pass over the same step: same start of step, same inputs
            self.iter_count -= 1
            self.t -= dt
            self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                             first_time=first_time, implicit=implicit, banded=banded, first_iter=False)
            self._solve_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                             first_time=first_time, implicit=implicit, banded=banded, first_iter=False)


class SpecQStep(SpecQ):

    def step(self, dt=None, c_bc=None, c_0j=None, Q_0j=None, c_0Ik=None, Q_0Ik=None):
        if dt is None:
            # the time the hydraulic model advanced in its last step
            dt = self.hydraulics.t - self.hydraulics.states['t']
        if Q_0j is None:
            Q_0j = self.hydraulics._Q_in
        if Q_0Ik is None:
            Q_0Ik = self.hydraulics._Q_0Ik
        self.import_hydraulic_states(dt)
        self.node_quantities()
        self.link_coeffs(dt)
        self.node_coeffs(Q_0Ik, c_0Ik, dt)
        self.forward_recurrence()
        self.backward_recurrence()
        self.boundary_coefficients()
        self.sparse_matrix_equations(c_bc, Q_0j, c_0j, None, dt)
        if self.hydraulics.banded:
            self.solve_banded_matrix()
        else:
            self.solve_sparse_matrix()
        self.solve_boundary_states()
        self.solve_internals_backwards()


class Scen:
    """call sequences on a model"""

    def reload(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None):
        self.save_state()
        self.step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt)
        self.load_state(compute_hydraulic_geometries=False)

    def reload_excluding(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None):
        self.step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt)
        self.load_state(exclude_states={'H_j', 'Q_ik', 't'}, compute_hydraulic_geometries=False)

    def reload_geometry(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None):
        self.step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt)
        self.load_state()

    def load_given(self, X=None, Y=None, Z=None):
        self.load_state(states={'H_j': X, 'Q_ik': Y, 'h_Ik': Z, 't': 0}, compute_hydraulic_geometries=False)

    def save_twice(self, H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None):
        self.step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt)
        self.save_state()


class ScenRepo(Scen, nSuperLink):
    pass


class ScenSpec(Scen, SpecStep):
    pass
