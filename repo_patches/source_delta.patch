From ace8d40191e74b78f6596dfed3177800667d2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:18 +0000
Subject: [PATCH 01/11] fix: reject site_mapping that sends two active sites to
 one external site

The external occupation then depends on which site was written last, so after
an accepted hop it no longer equals the mapped simulation state.
---
 kmcpy/models/site_energy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..26dbff8 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -685,6 +685,11 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(np.unique(lookup)) != len(lookup):
+        raise ValueError(
+            "site_mapping must map every kMCpy active site to a different "
+            "external site"
+        )
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
-- 
2.43.0


From df0276c1f4d4b3c91cfb8c00993e25dced70304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 02/11] fix: external occupation keeps mapped values that its
 initial dtype cannot hold

The dtype was inferred from the initially occupied states only (or taken from
initial_occupation), so a value reached later, or a longer label, was truncated
silently and the external occupation drifted from the simulation state.
---
 kmcpy/models/site_energy.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 26dbff8..2923f48 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -271,7 +271,7 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=mapped_values + self._lookup_values(),
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -293,6 +293,17 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _lookup_values(self) -> list[Any]:
+        """External values any site may take later in the simulation."""
+        lookups = (self._state_lookup, *(self._state_lookup_by_site or ()))
+        return [
+            value
+            for lookup in lookups
+            if lookup is not None
+            for value in lookup.values
+            if value is not _MISSING_STATE_VALUE
+        ]
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -803,7 +814,9 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
+        if _dtype_holds(initial_occupation.dtype, values):
+            return initial_occupation.dtype
+        values += initial_occupation.tolist()
     if values and all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
     if values and all(isinstance(value, (int, float, np.number)) for value in values):
@@ -813,6 +826,21 @@ def _resolve_external_dtype(
     return object
 
 
+def _dtype_holds(dtype: np.dtype, values: Sequence[Any]) -> bool:
+    """True if an array of this dtype stores every value without changing it."""
+    if dtype == object:
+        return True
+    try:
+        return all(
+            isinstance(value, (int, float, np.number))
+            if dtype.kind == "f"
+            else np.asarray(value, dtype=dtype).item() == value
+            for value in values
+        )
+    except (TypeError, ValueError, OverflowError):
+        return False
+
+
 def _optional_array_copy(value):
     if value is None:
         return None
-- 
2.43.0


From 1cb368a4c5dc6a90d6c79b08ec81793a52d2c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 03/11] fix: label supercell sites with their compact active
 index, not the primitive one

---
 kmcpy/structure/active_site_order.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..3a9f30b 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -361,9 +361,14 @@ def _make_supercell_with_properties(
         ORIGINAL_SITE_PROPERTY, list(range(len(supercell)))
     )
     active_indices = []
+    active_count = 0
     for site in supercell:
         primitive_index = int(site.properties[PRIMITIVE_SITE_PROPERTY])
-        active_indices.append(primitive_active_lookup.get(primitive_index, -1))
+        if primitive_index in primitive_active_lookup:
+            active_indices.append(active_count)
+            active_count += 1
+        else:
+            active_indices.append(-1)
     supercell.add_site_property(ACTIVE_SITE_PROPERTY, active_indices)
     return supercell
 
-- 
2.43.0


From a83de3a53065e5c5b43d4694e19744e556582793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:18 +0000
Subject: [PATCH 04/11] fix: keep the order of an HDF5 parameter history with
 more than ten records

---
 kmcpy/models/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..dc6cd4f 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -146,7 +146,8 @@ class LCEModelParamHistory(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
             with h5py.File(filename, "r") as h5file:
-                for key in sorted(h5file.keys()):
+                # shorter names first, so parameter_set_10 follows parameter_set_9
+                for key in sorted(h5file.keys(), key=lambda name: (len(name), name)):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
         return cls.from_dict(loadfn(filename, cls=None))
-- 
2.43.0


From d7025fd0b300464494d1f2483ac862f9400614dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:18 +0000
Subject: [PATCH 05/11] fix: decode text lists read from HDF5 parameter files

---
 kmcpy/models/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index dc6cd4f..aeaa774 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -201,5 +201,7 @@ def _decode_hdf5_value(value):
     if isinstance(value, bytes):
         return value.decode("utf-8")
     if hasattr(value, "tolist"):
-        return value.tolist()
+        return _decode_hdf5_value(value.tolist())
+    if isinstance(value, list):
+        return [_decode_hdf5_value(item) for item in value]
     return value
-- 
2.43.0


From 78c61ce49edd2bb139480e182f4fcf9899233739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:19 +0000
Subject: [PATCH 06/11] fix: read and write YAML parameter files

---
 kmcpy/models/parameters.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index aeaa774..9d65a40 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -10,6 +10,26 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 
+def _is_yaml(filename: Path) -> bool:
+    """Whether monty reads and writes this file as YAML."""
+    name = filename.name.lower()
+    return ".yaml" in name or ".yml" in name
+
+
+def _load_text(filename: Path) -> Any:
+    # the JSON options are not accepted by the YAML reader and writer
+    if _is_yaml(filename):
+        return loadfn(filename)
+    return loadfn(filename, cls=None)
+
+
+def _dump_text(payload: Any, filename: Path, indent: int) -> None:
+    if _is_yaml(filename):
+        dumpfn(payload, filename)
+    else:
+        dumpfn(payload, filename, indent=indent)
+
+
 @dataclass
 class LCEModelParameters(MSONable):
     """Fitted parameters for a :class:`LocalClusterExpansion` model."""
@@ -83,7 +103,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -91,7 +111,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -150,7 +170,7 @@ class LCEModelParamHistory(MSONable):
                 for key in sorted(h5file.keys(), key=lambda name: (len(name), name)):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -165,7 +185,7 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text(self.as_dict(), filename, indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From 90ac9853e8c4c3d54c73391d994c352e04348ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:19 +0000
Subject: [PATCH 07/11] fix: count mobile-ion sites by exact species, not by
 substring of the symbol

---
 kmcpy/simulator/kmc.py     | 2 +-
 kmcpy/simulator/tracker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..6161018 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -501,7 +501,7 @@ class KMC:
         pass_length = len([
             el.symbol
             for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
+            if config.mobile_ion_specie == el.symbol
         ])
         
         logger.info("============================================================")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..e2ef700 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -127,7 +127,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if self.mobile_ion_specie == el.symbol]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From 327b536d2032e41cd53c71ee85f962de054ab02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 08/11] fix: allowed species of a lattice supercell follow its
 site order

LatticeStructure.make_supercell tiled allowed_species cell by cell, while
pymatgen keeps the copies of one template site together, and read only the
diagonal of an array matrix. Carry the template index through pymatgen.
---
 kmcpy/structure/lattice_structure.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..e85de68 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,21 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        # Carry the template index through pymatgen so that allowed_species
+        # follows the site order of the supercell for any integer matrix.
+        original_allowed_species = self.allowed_species.copy()
+        self.template_structure.add_site_property(
+            "_kmcpy_template_index",
+            list(range(len(self.template_structure))),
+        )
         self.template_structure.make_supercell(sc_matrix)
+        template_indices = self.template_structure.site_properties["_kmcpy_template_index"]
+        self.template_structure.remove_site_property("_kmcpy_template_index")
         # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        self.allowed_species = [
+            original_allowed_species[int(template_index)]
+            for template_index in template_indices
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From aa176d78657d68b9ed256ea7c4f5b96155ca1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 09/11] fix: basis conversion keeps match and mismatch for
 every state

convert_to turned every value other than the mismatch value into a match, so
state 2 and above of a multi-state basis became the template species, and
equivalent_to called different states of one basis equal.
---
 kmcpy/structure/basis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..c3607d4 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -117,10 +117,10 @@ class BasisFunction(MSONable, ABC):
     
     def convert_to(self, value: Union[int, float], target_basis: 'BasisFunction') -> Union[int, float]:
         """Convert a value to another basis function."""
-        if value == self.mismatch_value:
-            return target_basis.mismatch_value
-        else:
+        if value == self.match_value:
             return target_basis.match_value
+        else:
+            return target_basis.mismatch_value
     
     def __str__(self) -> str:
         return f"{self.__class__.__name__}(match={self.match_value}, mismatch={self.mismatch_value})"
@@ -453,6 +453,10 @@ class Occupation:
         if not isinstance(other, Occupation):
             return False
         
+        # Values of the same basis compare directly, without losing states
+        if self._basis_obj.__class__ == other._basis_obj.__class__:
+            return np.array_equal(self._data, other._data)
+
         # Convert both to occupation basis for comparison
         self_occ = self.to_basis('occupation')
         other_occ = other.to_basis('occupation')
-- 
2.43.0


From 102cac5499e826867b754bbe41f281d767240dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:30 +0000
Subject: [PATCH 10/11] fix: generated events use the supercell numbering of
 the active-site order

generate_events numbered supercell sites from wrapped primitive coordinates.
A site at a cell face that round-off wraps from 0 to 0.999... (or one given
outside the cell) was then one cell off the active-site order saved with the
library, so its hops connected the wrong periodic images.
---
 kmcpy/event/generators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..7bd14fc 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -393,8 +393,14 @@ class EventGenerator:
             site_mapping,
             supercell_shape=supercell_shape,
         )
+        # Use the template coordinates as they are: wrapping them here (e.g. 0 to
+        # 0.999... by round-off) would shift the site by one cell relative to the
+        # supercell numbering of event_active_site_order.
         primitive_cell = structure_from_sites(
-            primitive_active_site_order.active_structure().sites
+            [
+                full_primitive_cell[index]
+                for index in primitive_active_site_order.primitive_active_indices
+            ]
         )
 
         if local_env_cutoff_dict is None:
-- 
2.43.0


From 26597423f8facc00fb9928696ca70f8df55ee8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:53 +0000
Subject: [PATCH 11/11] fix: a property's own schedule replaces the global
 sampling cadence

sample_properties filled in the missing half of a property's own schedule from
the global one, so a property attached with only a time_interval was also
evaluated every global interval steps (and vice versa).
---
 kmcpy/simulator/tracker.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index e2ef700..4026d29 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -383,12 +383,11 @@ class Tracker:
             if not spec.enabled:
                 continue
 
-            interval = spec.interval if spec.interval is not None else self._global_interval
-            time_interval = (
-                spec.time_interval
-                if spec.time_interval is not None
-                else self._global_time_interval
-            )
+            interval, time_interval = spec.interval, spec.time_interval
+            if interval is None and time_interval is None:
+                # The global cadence applies only to properties without their own.
+                interval = self._global_interval
+                time_interval = self._global_time_interval
 
             if not should_trigger(
                 step=step,
-- 
2.43.0

