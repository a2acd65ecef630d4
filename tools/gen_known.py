#!/usr/bin/env python3
"""Writes known_findings.txt: 'finding:' lines are kept, 'fixed:' lines are generated from the fix commits of /repo."""
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
TAGS = [
    ("histograms with a single bin", "B04"),
    ("quantile interpolation smears PDFs", "T02"), ("quantile interpolation fills gaps", "T02"),
    ("li_ma_significance is NaN", "S01"), ("li_ma_significance fails when mixing", "S01"), ("overestimated for bins covering", "M01"),
    ("simulations with spectral index -1", "M01"), ("width of the position angle", "M03"), ("lon/lat shower histogram", "M03"),
    ("lon/lat bins containing the edge", "M03"), ("resampling an empty", "B04"), ("resample_histogram1d fails for integer", "B04"),
    ("integrate_cone drops", "W02"), ("IndexError when interpolating", "T02"), ("nearest neighbor results are views", "H02"),
    ("EffectiveAreaEstimator modifies", "H02"), ("effective areas raised", "T02"), ("PSFTableEstimator modifies", "H02"),
    ("PSFTableEstimator fails", "T01"), ("DiscretePDFNearestNeighborSearcher", "T01"), ("wrong axis order of nearest", "T01"),
    ("RadMaxEstimator uses wrong", "T06"), ("RadMaxEstimator fails to extrapolate", "T06"), ("fill values are ignored", "T06"),
    ("smoothed along the percentiles", "C01"), ("integer values are truncated", "C01"), ("background_3d_lonlat", "I05"),
    ("optimize_cuts repeats", "C03"), ("wrong shape and values of visible", "T04"),
    ("visible edges extrapolation uses", "T04"), ("visible edges extrapolation returns nan", "T04"), ("fill values are mixed into rad max by visible", "T06"), ("moment morphing fails for templates with a single filled bin due", "T07"), ("moment morphing returns zeros for PDFs of quantities", "T07"), ("extrapolation from degenerate simplices", "T04"), ("nan for targets next to degenerate", "T04"), ("relative sensitivity is NaN", "S02"), ("calculate_bin_indices fails", "B01"),
    ("quantile interpolation is biased", "T07"), ("energy_dispersion_to_migration amplifies", "I03"), ("EventDisplay files", "F03"),
    ("compare_irf_cuts ignores", "C02"), ("cut optimization fails if particle", "C03"),
    ("loses PDFs narrower", "T01"), ("returns empty PDFs at grid points", "T02"), ("check_table fails", "V01"), ("solid angle of small cones", "G02"), ("edges that do not match", "B03"), ("resampling erases", "B04"), ("spectral indices close to -1", "M01"), ("gaps of a cut table", "C02"), ("line segments nearly parallel", "T04"),
]
path = ROOT / "known_findings.txt"
keep = [l for l in (path.read_text().splitlines() if path.exists() else []) if l.startswith("finding:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = ["# finding: property=<id> key=<key> :: <text>   recorded defects that are not repaired (none suppressed otherwise)",
       "# fixed: property=<id> <commit> <what failed>   repaired defects, suppress nothing"] + keep
for l in log:
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        tags = [t for k, t in TAGS if k in s]
        assert len(tags) == 1, (s, tags)
        out.append(f"fixed: property={tags[0]} {h} {s[5:]}")
path.write_text("\n".join(out) + "\n")
print(len(out) - 2, "lines")
