From d70820682e990838f55b81714c4837586b38da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 01/12] fix: compare list lengths by value in verify_list_len

---
 ramannoodle/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..0598d9a 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,7 +119,7 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
+    if length is not None and len(array) != length:
         raise ValueError(f"{name} has wrong length: {len(array)} != length")
 
 
-- 
2.43.0


From 3ca1b4cf3bb84911cf64c688970a9ecc71b537d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 02/12] fix: keep directions of any length intact when adding
 degrees of freedom

---
 ramannoodle/pmodel/_interpolation.py | 5 +++++
 ramannoodle/structure/_reference.py  | 4 +---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..a51b6ff 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -451,6 +451,11 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
+            # Only the direction matters. Scale such that the displacement is not
+            # changed by periodic boundary conditions.
+            cart_displacement = cart_displacement / np.linalg.norm(
+                cart_displacement * 10.0
+            )
             displacement = self.ref_structure.get_frac_displacement(cart_displacement)
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..ebd832b 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -297,7 +297,6 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
         try:
             return np.array([direction]) @ self._lattice
         except ValueError as exc:
@@ -338,8 +337,7 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        return (np.array([cart_direction]) @ np.linalg.inv(self.lattice))[0]
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From 7f0e94b4148856f291fa7ee4594ec852da771116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 03/12] fix: return copies of wavenumbers and polarizability
 time series from spectra

---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From da7707723a8656b16bc3964a2c5d58561aeda09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 04/12] fix: copy mask assigned to interpolation model

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index a51b6ff..0dd379d 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From 465858706bb0df504f74e4750886540a0c44b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 05/12] fix: rotate reference axis onto antiparallel targets in
 get_rotations

---
 ramannoodle/pmodel/torch/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..88cdcbf 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -61,6 +61,8 @@ def get_rotations(targets: Tensor) -> Tensor:
 
     # a==b implies s==0, which implies rotation should be identity/
     rotations[s == 0] = torch.eye(3)
+    # a==-b implies s==0 as well, but requires a half turn
+    rotations[(s == 0) & (c < 0)] = torch.diag(torch.tensor([-1.0, -1.0, 1.0]))
 
     return rotations
 
-- 
2.43.0


From 0ec775938ef51172bce4bc1ad8ee801c29239ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 06/12] fix: judge orthogonality of equivalent displacements in
 Cartesian coordinates

---
 ramannoodle/structure/_reference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index ebd832b..7d5f25b 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -223,9 +223,10 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Orthogonality is only meaningful in Cartesian coordinates.
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
-                [item.flatten() for item in orthogonal_displacements],
+                (candidate_displacement @ self._lattice).flatten(),
+                [(item @ self._lattice).flatten() for item in orthogonal_displacements],
             )
 
             # If new orthogonal displacement discovered
-- 
2.43.0


From 031f83b7328282a0b86c3f018754836194d41205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 07/12] fix: refuse truncated, non-finite or inconsistent data
 in OUTCAR readers

---
 ramannoodle/io/_utils.py      | 25 +++++++++++++++
 ramannoodle/io/vasp/outcar.py | 58 +++++++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 5d39667..a22e671 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -8,6 +8,7 @@ from numpy.typing import NDArray
 from tqdm import tqdm
 
 from ramannoodle.exceptions import (
+    InvalidFileException,
     NoMatchingLineFoundException,
     verify_ndarray_shape,
     verify_positions,
@@ -33,6 +34,30 @@ def _skip_file_until_line_contains(file: TextIO, content: str) -> str:
     raise NoMatchingLineFoundException(content)
 
 
+def _parse_vector(items: list[str]) -> list[float]:
+    """Parse three finite numbers.
+
+    Raises
+    ------
+    ValueError
+    """
+    vector = [float(item) for item in items]
+    if len(vector) != 3 or not np.isfinite(vector).all():
+        raise ValueError(f"not a vector: {items}")
+    return vector
+
+
+def _verify_read_lattice(lattice: NDArray[np.float64]) -> None:
+    """Verify that lattice vectors read from a file span three dimensions.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    if np.linalg.matrix_rank(lattice) != 3:
+        raise InvalidFileException("lattice vectors are not linearly independent")
+
+
 def pathify(filepath: str | Path) -> Path:
     """Convert filepath to Path.
 
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..34a1fe8 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -7,6 +7,8 @@ from numpy.typing import NDArray
 
 from ramannoodle.io._utils import (
     _skip_file_until_line_contains,
+    _parse_vector,
+    _verify_read_lattice,
     pathify,
     _read_polarizability_dataset,
 )
@@ -75,12 +77,20 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     try:
         line = _skip_file_until_line_contains(file, "ions per type")
         atomic_numbers = [int(item) for item in line.split()[4:]]
+        # The first symbol may have been read again at the end of the POTCAR block.
+        remaining_symbols = potcar_symbols[len(atomic_numbers) :]
+        if (
+            len(atomic_numbers) > len(potcar_symbols)
+            or remaining_symbols not in ([], potcar_symbols[:1])
+            or min(atomic_numbers) < 1
+        ):
+            raise ValueError("ion numbers do not match POTCAR block")
 
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
@@ -96,18 +106,21 @@ def _read_eigenvector(
     InvalidFileException
     """
     eigenvector: list[NDArray[np.float64]] = []
+    line = ""
     try:
         for line in file:
             if len(eigenvector) == num_atoms:
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in line.split()[3:]]
+            vector = _parse_vector(line.split()[3:])
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
-        return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
+    if len(eigenvector) != num_atoms:
+        raise InvalidFileException("eigenvector is incomplete")
+    return np.array(eigenvector)
 
 
 def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
@@ -127,7 +140,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +167,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +198,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -202,7 +215,7 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in line.split()[0:3]])
+        return np.array(_parse_vector(line.split()[0:3]))
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
     except IndexError as exc:
@@ -238,6 +251,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
 
+    _verify_read_lattice(np.array(lattice))
     return np.array(lattice)
 
 
@@ -263,7 +277,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
     eigenvectors = []
 
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
 
         # get atom information
         atomic_symbols = _read_atomic_symbols(file)
@@ -291,8 +305,15 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (
+                NoMatchingLineFoundException,
+                TypeError,
+                IndexError,
+                ValueError,
+            ) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
+            if not np.isfinite(wavenumbers[-1]):
+                raise InvalidFileException("eigenvalue is not finite")
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
         # Divide eigenvectors by sqrt(mass) to get cartesian displacements
@@ -330,7 +351,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         num_atoms = len(_read_atomic_symbols(outcar_file))
         positions = _read_positions(outcar_file, num_atoms)
         polarizability = _read_polarizability(outcar_file)
@@ -357,7 +378,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         num_atoms = len(_read_atomic_symbols(file))
         positions = _read_positions(file, num_atoms)
         return positions
@@ -392,7 +413,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         atomic_symbols = _read_atomic_symbols(outcar_file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(outcar_file)
@@ -446,7 +467,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(file)
@@ -469,7 +490,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -489,8 +510,11 @@ def _read_timestep(file: TextIO) -> float:
     except NoMatchingLineFoundException as exc:
         raise InvalidFileException("timestep not found") from exc
     try:
-        return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+        timestep = float(line.split()[2])
+        if not np.isfinite(timestep) or timestep <= 0:
+            raise ValueError(f"invalid timestep: {timestep}")
+        return timestep
+    except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
@@ -509,7 +533,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         timestep = _read_timestep(file)
         lattice = _read_lattice(file)
-- 
2.43.0


From d4e7aed7a60f877c44352d597e77f0779c2a16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 08/12] fix: refuse truncated, non-finite or inconsistent data
 in POSCAR and XDATCAR readers

---
 ramannoodle/io/_utils.py       |  4 ++--
 ramannoodle/io/vasp/outcar.py  |  8 +++++++-
 ramannoodle/io/vasp/poscar.py  | 31 ++++++++++++++++++++-----------
 ramannoodle/io/vasp/xdatcar.py |  8 ++++++--
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index a22e671..99849bc 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -54,8 +54,8 @@ def _verify_read_lattice(lattice: NDArray[np.float64]) -> None:
     ------
     InvalidFileException
     """
-    if np.linalg.matrix_rank(lattice) != 3:
-        raise InvalidFileException("lattice vectors are not linearly independent")
+    if not np.isfinite(lattice).all() or np.linalg.matrix_rank(lattice) != 3:
+        raise InvalidFileException("lattice vectors do not span three dimensions")
 
 
 def pathify(filepath: str | Path) -> Path:
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 34a1fe8..412017d 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -90,7 +90,13 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
+    except (
+        NoMatchingLineFoundException,
+        IndexError,
+        ValueError,
+        MemoryError,
+        OverflowError,
+    ) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..78c83e1 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -6,7 +6,12 @@ from typing import TextIO
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import verify_structure, pathify
+from ramannoodle.io._utils import (
+    _parse_vector,
+    _verify_read_lattice,
+    verify_structure,
+    pathify,
+)
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.constants import ATOM_SYMBOLS, ATOMIC_NUMBERS
 from ramannoodle.structure._reference import ReferenceStructure
@@ -40,6 +45,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
+    _verify_read_lattice(np.array(lattice) * scale_factor)
     return np.array(lattice) * scale_factor
 
 
@@ -72,10 +78,15 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
             int_counts.append(int(count))
         except ValueError as err:
             raise InvalidFileException(f"could not parse counts: {line}") from err
+        if int_counts[-1] < 1:
+            raise InvalidFileException(f"ion counts must be positive: {line}")
 
     result = []
-    for symbol, int_count in zip(symbols, int_counts):
-        result += [symbol] * int_count
+    try:
+        for symbol, int_count in zip(symbols, int_counts):
+            result += [symbol] * int_count
+    except (MemoryError, OverflowError) as err:
+        raise InvalidFileException(f"ion counts are too large: {line}") from err
     return result
 
 
@@ -97,22 +108,20 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
-    if label[0].lower() == "c":
+    if label[:1].lower() == "c":
         cart_mode = True
-    elif label[0].lower() != "d":
+    elif label[:1].lower() != "d":
         raise InvalidFileException(f"unrecognized coordinate format: {label}")
 
     positions = []
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            position = [float(item) for item in line.split()[0:3]]
+            position = _parse_vector(line.split()[0:3])
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"positions could not be parsed: {line}"
             ) from exc
-        if len(position) != 3:
-            raise InvalidFileException(f"positions could not be parsed: {line}")
         positions.append(position)
 
     if cart_mode:
@@ -142,7 +151,7 @@ def read_positions(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         positions = _read_positions(file, lattice, len(atomic_symbols))
@@ -166,7 +175,7 @@ def read_structure(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -193,7 +202,7 @@ def read_ref_structure(
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..977d781 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -42,7 +42,7 @@ def read_positions_ts(
     """
     filepath = pathify(filepath)
     positions_ts = []
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
@@ -50,7 +50,11 @@ def read_positions_ts(
                 positions = _read_positions(file, lattice, len(atomic_symbols))
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
+                if (
+                    "missing first character in coordinate format:" in str(exc)
+                    and len(positions_ts) > 0
+                    and file.read().strip() == ""
+                ):
                     break
                 raise exc
         return np.array(positions_ts)
-- 
2.43.0


From d30b4c038f92e47b3409d89eec5f6604ff33b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 09/12] fix: refuse truncated, non-finite or inconsistent data
 in vasprun.xml readers

---
 ramannoodle/io/vasp/vasprun.py | 118 +++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 41 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..9f3e3e4 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -8,7 +8,12 @@ import defusedxml.ElementTree as ET
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import pathify, _read_polarizability_dataset
+from ramannoodle.io._utils import (
+    _parse_vector,
+    _verify_read_lattice,
+    pathify,
+    _read_polarizability_dataset,
+)
 from ramannoodle.exceptions import InvalidFileException, UserError
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
 from ramannoodle.dynamics._phonon import Phonons
@@ -26,7 +31,7 @@ def _get_root_element(file: TextIO) -> Element:
         root = ET.parse(file).getroot()
         assert isinstance(root, Element)
         return root
-    except ET.ParseError as exc:
+    except (ET.ParseError, ValueError) as exc:
         raise InvalidFileException("root xml element could not be found") from exc
 
 
@@ -44,29 +49,50 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
-        atomic_symbol = child[0].text
+        atomic_symbol = child[0].text if len(child) > 0 else None
         if atomic_symbol is None:
             raise InvalidFileException("child has no text")
+        if atomic_symbol.strip() not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atom symbol: {atomic_symbol}")
         atomic_symbols.append(atomic_symbol.strip())
+    if len(atomic_symbols) == 0:
+        raise InvalidFileException("atomic symbols not found")
     return atomic_symbols
 
 
-def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
-    """Parse atomic fractional positions from a vasprun.xml Element.
-
-    This function reads the positions from the initial structure.
+def _parse_varray(varray: Element, num_rows: int) -> NDArray[np.float64]:
+    """Parse a vasprun.xml Element containing a given number of vectors.
 
     Raises
     ------
     InvalidFileException
     """
-    positions = []
-    for child in structure_varray:
+    rows = []
+    for child in varray:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+        try:
+            rows.append(_parse_vector(text.split()))
+        except ValueError as exc:
+            raise InvalidFileException(f"varray could not be parsed: {text}") from exc
+    if len(rows) != num_rows:
+        raise InvalidFileException(
+            f"varray has wrong length: {len(rows)} != {num_rows}"
+        )
+    return np.array(rows)
+
+
+def _parse_positions(root: Element, structure_varray: Element) -> NDArray[np.float64]:
+    """Parse atomic fractional positions from a vasprun.xml Element.
+
+    This function reads the positions from the initial structure.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    return _parse_varray(structure_varray, len(_parse_atomic_symbols(root)))
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -82,13 +108,7 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     polarizability_element = root.find("./calculation/varray[@name='dielectric_dft']")
     if polarizability_element is None:
         raise InvalidFileException("polarizability not found")
-    polarizability = []
-    for child in polarizability_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    return _parse_varray(polarizability_element, 3)
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -104,13 +124,9 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     if varray_element is None:
         raise InvalidFileException("lattice not found")
 
-    lattice = []
-    for child in varray_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    lattice = _parse_varray(varray_element, 3)
+    _verify_read_lattice(lattice)
+    return lattice
 
 
 def read_positions_and_polarizability(
@@ -140,12 +156,12 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(root, structure_varray)
         polarizability = _parse_polarizability(root)
         return positions, polarizability
 
@@ -179,7 +195,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -187,7 +203,7 @@ def read_structure_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(root, structure_varray)
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -237,12 +253,12 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(root, structure_varray)
         return positions
 
 
@@ -267,7 +283,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -275,7 +291,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(root, structure_varray)
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -292,7 +308,13 @@ def _parse_timestep(root: Element) -> float:
     text = element.text
     if text is None:
         raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    try:
+        timestep = float(text.strip())
+    except ValueError as exc:
+        raise InvalidFileException(f"timestep could not be parsed: {text}") from exc
+    if not np.isfinite(timestep) or timestep <= 0:
+        raise InvalidFileException(f"invalid timestep: {timestep}")
+    return timestep
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -310,7 +332,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         structures = root.iterfind("structure")
@@ -321,7 +343,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            positions_ts.append(_parse_positions(root, structure_varray))
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -342,7 +364,14 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("eigenvalues not found")
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    try:
+        eigenvalues = np.array([float(i) for i in element.text.split()])
+    except ValueError as exc:
+        raise InvalidFileException("eigenvalues could not be parsed") from exc
+    if eigenvalues.shape != (3 * len(_parse_atomic_symbols(root)),):
+        raise InvalidFileException("wrong number of eigenvalues")
+    if not np.isfinite(eigenvalues).all():
+        raise InvalidFileException("eigenvalues are not finite")
     eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
     eigenvalues *= np.sign(eigenvalues)
     return eigenvalues
@@ -365,10 +394,17 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     for v in element:
         if v.text is None:
             raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
-        cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+        try:
+            cart_eigenvector = np.array([float(i) for i in v.text.split()])
+            cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+        except ValueError as exc:
+            raise InvalidFileException("eigenvector could not be parsed") from exc
+        if not np.isfinite(cart_eigenvector).all():
+            raise InvalidFileException("eigenvector is not finite")
         eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
 
+    if len(eigenvectors) != 3 * num_atoms:
+        raise InvalidFileException("wrong number of eigenvectors")
     return np.array(eigenvectors)
 
 
@@ -391,7 +427,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         atomic_symbols = _parse_atomic_symbols(root)
@@ -399,7 +435,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        ref_positions = _parse_positions(structure_varray)
+        ref_positions = _parse_positions(root, structure_varray)
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
-- 
2.43.0


From b1d8e2a96021e0d6bd53ac2870358274de5a856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 10/12] fix: compare dataset lattices with the first file, so
 that small differences do not add up

---
 ramannoodle/io/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 99849bc..327232c 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -172,8 +172,9 @@ def _read_polarizability_dataset(
                 raise IncompatibleStructureException(
                     f"incompatible atomic positions: {filepath}"
                 )
-        lattice = read_lattice
-        atomic_numbers = read_atomic_numbers
+        else:
+            lattice = read_lattice
+            atomic_numbers = read_atomic_numbers
         positions_list.append(positions)
         polarizabilities.append(polarizability)
 
-- 
2.43.0


From 63c200adfe43c6dc0d2f0437d20a8bcd1c532bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 11/12] fix: refuse files whose reference structure is invalid
 with InvalidFileException

---
 ramannoodle/io/_utils.py       | 19 +++++++++++++++++++
 ramannoodle/io/vasp/outcar.py  |  3 ++-
 ramannoodle/io/vasp/poscar.py  |  3 ++-
 ramannoodle/io/vasp/vasprun.py |  3 ++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 327232c..a7c1fa2 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -18,6 +18,7 @@ from ramannoodle.exceptions import (
     UserError,
 )
 from ramannoodle.constants import ATOM_SYMBOLS
+from ramannoodle.structure._reference import ReferenceStructure
 
 TORCH_PRESENT = True
 try:
@@ -58,6 +59,24 @@ def _verify_read_lattice(lattice: NDArray[np.float64]) -> None:
         raise InvalidFileException("lattice vectors do not span three dimensions")
 
 
+def _get_read_ref_structure(
+    atomic_numbers: list[int],
+    lattice: NDArray[np.float64],
+    positions: NDArray[np.float64],
+) -> ReferenceStructure:
+    """Get the reference structure described by a file.
+
+    Raises
+    ------
+    InvalidFileException
+    SymmetryException
+    """
+    try:
+        return ReferenceStructure(atomic_numbers, lattice, positions)
+    except ValueError as exc:
+        raise InvalidFileException(f"invalid reference structure: {exc}") from exc
+
+
 def pathify(filepath: str | Path) -> Path:
     """Convert filepath to Path.
 
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 412017d..acdcff6 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -9,6 +9,7 @@ from ramannoodle.io._utils import (
     _skip_file_until_line_contains,
     _parse_vector,
     _verify_read_lattice,
+    _get_read_ref_structure,
     pathify,
     _read_polarizability_dataset,
 )
@@ -478,7 +479,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(file)
         positions = _read_positions(file, len(atomic_symbols))
-        return ReferenceStructure(atomic_numbers, lattice, positions)
+        return _get_read_ref_structure(atomic_numbers, lattice, positions)
 
 
 def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 78c83e1..72ffc96 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -9,6 +9,7 @@ from numpy.typing import NDArray
 from ramannoodle.io._utils import (
     _parse_vector,
     _verify_read_lattice,
+    _get_read_ref_structure,
     verify_structure,
     pathify,
 )
@@ -207,7 +208,7 @@ def read_ref_structure(
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         positions = _read_positions(file, lattice, len(atomic_symbols))
-        return ReferenceStructure(atomic_numbers, lattice, positions)
+        return _get_read_ref_structure(atomic_numbers, lattice, positions)
 
 
 def _get_symbols_str(atomic_numbers: list[int]) -> str:
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 9f3e3e4..6837067 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -11,6 +11,7 @@ from numpy.typing import NDArray
 from ramannoodle.io._utils import (
     _parse_vector,
     _verify_read_lattice,
+    _get_read_ref_structure,
     pathify,
     _read_polarizability_dataset,
 )
@@ -292,7 +293,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(root, structure_varray)
-        return ReferenceStructure(atomic_numbers, lattice, positions)
+        return _get_read_ref_structure(atomic_numbers, lattice, positions)
 
 
 def _parse_timestep(root: Element) -> float:
-- 
2.43.0


From c722f671eb14fb50d04cf3303bed8c0279c32cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 12/12] fix: give imaginary phonons in vasprun.xml negative
 wavenumbers

---
 ramannoodle/io/vasp/vasprun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 6837067..b8d3124 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -373,9 +373,9 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("wrong number of eigenvalues")
     if not np.isfinite(eigenvalues).all():
         raise InvalidFileException("eigenvalues are not finite")
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # Imaginary phonons have positive eigenvalues and are given negative wavenumbers.
+    wavenumbers = np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
+    return wavenumbers * np.sign(-eigenvalues)
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0

