From d66f62898a919fe6e616368cd95d549f749361ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 01/15] fix: use the cleaned-up intensity in
 formulate(cleanup_summations=True)

The outer summation over helicities was rebuilt without the clean-up, so that
helicities of spinless states were still summed over.
---
 src/ampform_dpd/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..a5b0c12 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From c5030023e41209bb4b41dc82402f93bada4d74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 02/15] fix: use the dynamics of each decay chain instead of
 the first chain of its resonance

Dynamics that were registered for a decay chain were looked up by resonance name
and therefore taken from the first chain with that name (or ignored), which is wrong
if a resonance has several LS couplings. Registering by name covers all its chains.
---
 src/ampform_dpd/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index a5b0c12..895f437 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -181,7 +181,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -449,13 +449,22 @@ class DynamicsConfigurator:
         self.__dynamics_builders: dict[ThreeBodyDecayChain, DynamicsBuilder] = {}
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
-        chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        """Register a builder for a decay chain or for all chains of a resonance."""
+        for chain in self.__get_chains(identifier):
+            self.__dynamics_builders[chain] = builder
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
         return self.__dynamics_builders.get(chain, lambda _: DefinedExpression())
 
+    def __get_chains(self, identifier) -> tuple[ThreeBodyDecayChain, ...]:
+        chain = self.__get_chain(identifier)
+        if isinstance(identifier, str):
+            return tuple(
+                c for c in self.__decay.chains if c.resonance.name == identifier
+            )
+        return (chain,)
+
     def __get_chain(self, identifier) -> ThreeBodyDecayChain:
         if isinstance(identifier, ThreeBodyDecayChain):
             chain = identifier
-- 
2.43.0


From d155479a7f54e97f260922fde46bfdfd4c024b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 03/15] fix: take the spin of final states in recoupling of LS
 vertices

Vertices of type 'ls' failed with a TypeError, because a State was converted to a number.
---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..1516ef6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From 85277d9878d19eb2627fb8add23ef0b3fa42b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 04/15] fix: use squared mass of the initial state in
 serialized production form factors

The form factor of a production vertex was evaluated at s=m0 with a Mandelstam
variable as mass of the isobar instead of at s=m0^2 with mass sqrt(sigma).
---
 src/ampform_dpd/io/serialization/dynamics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..8557935 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -79,11 +79,15 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
     function_type = function_definition["type"]
     if function_type == "BlattWeisskopf":
         node = vertex["node"]
-        s = to_mandelstam_symbol(node)
-        m1, m2 = (to_mass_symbol(i) for i in node)
+        m1, m2 = (
+            to_mass_symbol(i) if isinstance(i, int) else sp.sqrt(to_mass_symbol(i))
+            for i in node
+        )
         if all(isinstance(i, int) for i in node):
+            s = to_mandelstam_symbol(node)
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            s = to_mandelstam_symbol(node) ** 2  # m0 is a mass
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From e132953d454c80373d650e4f0293603f91676bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 05/15] fix: convert QRules particles without a defined parity

Particles such as Xi(1690)- have parity None, which failed with a TypeError.
---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..7c34406 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From f389c9ee3f2b9a82b1daa277e1a87d110c0e78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 06/15] fix: fill empty cells in decay tables if some chains
 have no LS couplings

Rows of chains without LS couplings had fewer cells than the header, or showed the
angular momentum of the production vertex in the column of the decay vertex.
---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..e922f14 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_outgoing_ls = any(c.outgoing_ls is not None for c in decay_chains)
+    render_incoming_ls = any(c.incoming_ls is not None for c in decay_chains)
+    if render_outgoing_ls:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_incoming_ls:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{int(1e3 * chain.resonance.mass):,.0f}",
             f"{int(1e3 * chain.resonance.width):,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_outgoing_ls:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_incoming_ls:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From 845c5a83a328185820f753499974e65bdabd8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 07/15] fix: do not generate LS couplings for spins that cannot
 couple

For example, a spin-1 particle cannot decay to particles with spin 1/2 and 0, but
generate_ls_couplings(1, 0.5, 0) returned LS couplings.
---
 src/ampform_dpd/spin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..e613741 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -22,15 +22,18 @@ def generate_ls_couplings(
     >>> generate_ls_couplings(1.5, 0.5, 0)
     [(1, 1/2), (2, 1/2)]
     """
+    s0 = float(parent_spin)
     s1 = float(child1_spin)
     s2 = float(child2_spin)
+    if not (s0 + s1 + s2).is_integer():  # not allowed by angular momentum conservation
+        return []
     angular_momenta = create_rational_range(0, max_L)
     coupled_spins = create_rational_range(abs(s1 - s2), s1 + s2)
     ls_couplings = {
         (int(L), S)
         for L in angular_momenta
         for S in coupled_spins
-        if abs(L - S) <= parent_spin <= L + S
+        if abs(L - S) <= s0 <= L + S
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From 460b612a0fa37d5f46c7cd8656495b53c4c9798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 08/15] fix: identify interaction nodes by ID when converting
 transitions

The LS couplings of the production and decay node were swapped if the interactions
of a transition are not listed in order of their node ID.
---
 src/ampform_dpd/adapter/qrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 7c34406..d34dd4a 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,7 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From a027f81aacb773f43296346921a997703d56ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 09/15] fix: do not share parametrized functions between calls
 of cached lambdify

Updating the parameters of a lambdified function changed the parameters of all other
functions for the same expression and the same parameter defaults.
---
 src/ampform_dpd/io/cached.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..dfe9ec0 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,11 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    # parametrized functions are mutable, so never hand out the cached object itself
+    return ParametrizedBackendFunction(
+        func.function, func.argument_order, func.parameters
+    )
 
 
 @cache
-- 
2.43.0


From 7826fc6916f6ca25d7824bd4cc5b699bb0f0dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 10/15] fix: use actual helicities in amplitudes of serialized
 models

The Wigner d function of a deserialized chain was evaluated with the helicities that
are listed in its vertices, which is wrong for the parity-flipped term of a parity
vertex, and helicity conservation in the production vertex was not imposed, so that
each chain contributed to amplitudes with any helicity of the initial state.
---
 src/ampform_dpd/io/serialization/amplitude.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 1516ef6..ed1a279 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -132,24 +132,25 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
     # -----------------------
-    (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
+    (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
-    R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
-    λR = _get_helicity_symbol(R_node)
+    R_node, _ = _get_resonance_helicity(chain_definition)  # noqa: N806
     # -----------------------
     A = _generate_amplitude_index_bases()
     subsystem_id = get_spectator_id(chain_definition["topology"])
+    λR, λ0_, λi, λj, λk = map(_get_helicity_symbol, (R_node, 0, i, j, subsystem_id))
     h_prod = formulate_recoupling(model, chain_idx, vertex_idx=0)
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
-    amplitude_expression = (
-        weight
+    amplitude_expression = PoolSum(
+        δ(λ0_, λR - λk)
+        * weight
         * h_prod
         * h_dec
-        * Wigner.d(jR, λR, λi_val - λj_val, θij)
-        * dynamics.expression
+        * Wigner.d(jR, λR, λi - λj, θij)
+        * dynamics.expression,
+        (λR, create_spin_range(jR)),
     )
-    amplitude_expression = amplitude_expression.subs({λR: λR_val})
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
     return {
         amplitude_symbol: amplitude_expression,
-- 
2.43.0


From 0dc641c375f81394c7948508e8a2fc28af2482a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 11/15] fix: render ChannelArguments as LaTeX

The braces in the LaTeX template were swapped, so that sp.latex() raised a KeyError.
---
 src/ampform_dpd/dynamics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 18b94d0..1597ea7 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -156,7 +156,7 @@ class ChannelArguments(sp.Expr):
     m2: Any = 0
     angular_momentum: Any = 0
     meson_radius: Any = 1
-    _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
+    _latex_repr_ = R"\Gamma^\text{{channel}}\left({s}, {m0}, {width}\right)"
 
     def evaluate(self) -> sp.Expr:
         s, m0, Γ0, m1, m2, L, R = self.args
-- 
2.43.0


From c7735caa619713c5347ff6c4dfe5a13f3a2076fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 12/15] fix: reject transitions of different decays before
 selecting minimal LS

With min_ls, transitions with another initial or final state were merged
silently into one of the decays instead of being rejected.
---
 src/ampform_dpd/adapter/qrules.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index d34dd4a..88a5cb4 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -50,6 +50,9 @@ def to_three_body_decay(
         transitions = normalize_state_ids(transitions)
         _LOGGER.warning("Relabeled initial state to 0 and final states to 1, 2, 3")
     transitions = convert_transitions(transitions)
+    if len({_get_outer_states(t) for t in transitions}) > 1:
+        msg = "Not all transitions have the same initial and final state"
+        raise ValueError(msg)
     if min_ls:
         if isinstance(min_ls, bool):
             node_ids = None
@@ -76,6 +79,11 @@ def to_three_body_decay(
     )
 
 
+def _get_outer_states(transition: FrozenTransition) -> frozenset:
+    outer_states = {**transition.initial_states, **transition.final_states}
+    return frozenset(outer_states.items())
+
+
 def _to_decay_chain(
     transition: FrozenTransition[Particle | State, LSCoupling | None],
 ) -> ThreeBodyDecayChain:
-- 
2.43.0


From d0280195e4c3b9c6f5e9b73f511446dfda934d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 13/15] fix: use masses and radius of each channel in
 multichannel Breit-Wigner

The masses of the second and further channels were shared by all resonances and
the meson radius of these channels was ignored.
---
 src/ampform_dpd/io/serialization/dynamics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index 8557935..250343b 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -157,14 +157,18 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
+        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
+        di = sp.Symbol(
+            Rf"R_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From dd960e907825043d451aac428c35fb0c3ca4153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 14/15] fix: do not drop transitions in filter_min_ls if they
 come from an iterator

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 88a5cb4..f17a8b2 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -199,6 +199,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From b3f0437c5de91c902340441bd8a7f6b17a5552d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:26 +0000
Subject: [PATCH 15/15] fix: relabel transitions if any of them is numbered in
 another way

---
 src/ampform_dpd/adapter/qrules.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index f17a8b2..1446e04 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -44,10 +44,9 @@ def to_three_body_decay(
     if not transitions:
         msg = "Need at least one transition object"
         raise ValueError(msg)
-    if set(transitions[0].initial_states) != {0} or set(
-        transitions[0].final_states
-    ) != {1, 2, 3}:
-        transitions = normalize_state_ids(transitions)
+    normalized_transitions = tuple(normalize_state_ids(transitions))
+    if normalized_transitions != transitions:
+        transitions = normalized_transitions
         _LOGGER.warning("Relabeled initial state to 0 and final states to 1, 2, 3")
     transitions = convert_transitions(transitions)
     if len({_get_outer_states(t) for t in transitions}) > 1:
-- 
2.43.0

